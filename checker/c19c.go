package main

import (
	"golang.org/x/tools/go/ssa"
)

// scope: the collector is told the right variables, and the models hold the
// variables that are iterated over.
func (k *enumer) scope() {
	p, c := k.p, k.c
	for _, f := range p.Funcs {
		if pkgOf(f) == nil || shortPkg(pkgOf(f)) != "model/iter" {
			continue
		}
		for _, ci := range callsIn(f) {
			cl, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			// the constructor of the collector: a function value with three sets
			if !cl.Call.IsInvoke() && staticCallee(&cl.Call) == nil && isNamed(cl.Type(), "model/iter", "Collector") {
				var sets []ssa.Value
				for _, a := range cl.Call.Args {
					if isVarSetT(a.Type()) {
						sets = append(sets, a)
					}
				}
				if len(sets) == 3 {
					k.scopeSets(f, cl, sets)
				}
			}
			if n, add := collectorCall(cl); n == "AddModel" {
				k.indices(f, add)
			}
		}
	}
	for _, f := range p.Funcs {
		if pkgOf(f) == nil || shortPkg(pkgOf(f)) != "model/count" {
			continue
		}
		var lit, v []ssa.Instruction
		for _, ci := range callsIn(f) {
			cl, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			switch methodName(cl) {
			case "AddLit":
				lit = append(lit, cl)
			case "Add":
				if len(cl.Call.Args) == 2 && isVarSetT(cl.Call.Args[0].Type()) {
					v = append(v, cl)
				}
			}
		}
		if len(lit) == 1 && len(v) == 1 {
			c.Cond(together(lit[0], v[0]), "count", "fixed variables in "+shortFn(f), p.pos(v[0].Pos()), "a variable is fixed by the backbone and not recorded as such, or the other way round")
		}
	}
}

// ownFields: the fields of the receiver a value is made of (through the sums
// and differences of sets in the functions of the package).
func ownFields(f *ssa.Function, v ssa.Value) (map[string]bool, map[string]bool) {
	plus, minus := map[string]bool{}, map[string]bool{}
	fields := func(v ssa.Value, to map[string]bool) {
		from := map[ssa.Value]bool{}
		madeOf(v, from, 0)
		for w := range from {
			if n := recvLoad(f, w); n != "" {
				to[n] = true
			}
			if cl, ok := w.(*ssa.Call); ok && methodName(cl) == "KnownVariables" {
				to["known"] = true
			}
		}
	}
	cl, ok := v.(*ssa.Call)
	if !ok {
		return nil, nil
	}
	g := staticCallee(&cl.Call)
	if g == nil || shortPkg(pkgOf(g)) != "model/iter" || len(canonOf(g).Blocks) == 0 {
		return nil, nil
	}
	g = canonOf(g)
	for _, ci := range callsIn(g) {
		x, ok := ci.(*ssa.Call)
		if !ok {
			continue
		}
		to := plus
		switch methodName(x) {
		case "AddAll", "NewMutableVarSetCopy", "NewVarSetCopy":
		case "RemoveAll":
			to = minus
		default:
			continue
		}
		args := x.Call.Args
		if methodName(x) == "AddAll" || methodName(x) == "RemoveAll" {
			args = args[1:]
		}
		for i, q := range g.Params {
			for _, a := range args {
				from := map[ssa.Value]bool{}
				madeOf(a, from, 0)
				if from[q] {
					fields(cl.Call.Args[i], to)
				}
			}
		}
	}
	return plus, minus
}

func (k *enumer) scopeSets(f *ssa.Function, cl *ssa.Call, sets []ssa.Value) {
	p, c := k.p, k.c
	// the variables that are iterated over: what the recursion gets
	main := ""
	for _, ci := range callsIn(f) {
		x, ok := ci.(*ssa.Call)
		if !ok || x == cl {
			continue
		}
		g := staticCallee(&x.Call)
		if g == nil || shortPkg(pkgOf(g)) != "model/iter" {
			continue
		}
		passes := false
		for _, a := range x.Call.Args {
			passes = passes || a == ssa.Value(cl)
		}
		if !passes {
			continue
		}
		for _, a := range x.Call.Args {
			if n := recvLoad(f, a); n != "" && isVarSetT(a.Type()) {
				main = n
			}
		}
	}
	if main == "" {
		k.opened("%s: the variables iterated over are not followed", shortFn(f))
		return
	}
	plus, minus := ownFields(f, sets[1])
	if len(plus) == 0 && len(minus) == 0 {
		k.opened("%s: the variables not on the solver are not followed", shortFn(f))
		return
	}
	ok := plus[main] && len(plus) == 1 && minus["known"] && len(minus) == 1
	c.Cond(ok, "care", "variables not on the solver in "+shortFn(f), p.pos(cl.Pos()), "the collector is not told the variables iterated over without those on the solver")
	plus, minus = ownFields(f, sets[2])
	if len(plus) == 0 && len(minus) == 0 {
		return
	}
	ok = !plus[main] && len(plus) == 1 && !plus["known"] && minus["known"]
	c.Cond(ok, "care", "additional variables not on the solver in "+shortFn(f), p.pos(cl.Pos()), "the collector is not told the additional variables without those on the solver")
}

// indices: the models hold the variables iterated over.
func (k *enumer) indices(f *ssa.Function, add *ssa.Call) {
	p, c := k.p, k.c
	var idx ssa.Value
	for _, a := range add.Call.Args {
		if isInt32Slice(a.Type()) {
			idx = a
		}
	}
	cl, ok := idx.(*ssa.Call)
	if !ok {
		return
	}
	g := staticCallee(&cl.Call)
	if g == nil || shortPkg(pkgOf(g)) != "model/iter" || len(canonOf(g).Blocks) == 0 {
		return
	}
	g = canonOf(g)
	var par *ssa.Parameter
	for _, q := range g.Params {
		if isInt32Slice(q.Type()) {
			par = q
		}
	}
	if par == nil {
		k.opened("%s: the indices are not followed", shortFn(g))
		return
	}
	var edges func(v ssa.Value, seen map[ssa.Value]bool, out map[ssa.Value]bool)
	edges = func(v ssa.Value, seen, out map[ssa.Value]bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				edges(e, seen, out)
			}
			return
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				from := map[ssa.Value]bool{}
				madeOf(x.Call.Args[1], from, 0)
				if from[par] {
					out[par] = true
					return
				}
				edges(x.Call.Args[0], seen, out)
				return
			}
		}
		out[v] = true
	}
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) == 0 {
			continue
		}
		out := map[ssa.Value]bool{}
		edges(r.Results[0], map[ssa.Value]bool{}, out)
		good := true
		for v := range out {
			if kc, ok := v.(*ssa.Const); ok && kc.IsNil() {
				continue
			}
			from := map[ssa.Value]bool{}
			madeOf(v, from, 0)
			good = good && from[par]
		}
		c.Cond(good, "care", "indices of the models in "+shortFn(g), p.pos(r.Pos()), "the models that are collected may not hold the variables that are iterated over")
	}
	// the additional variables are those that are not iterated over
	n := 0
	var first *ssa.Parameter
	for _, q := range g.Params {
		if isVarSetT(q.Type()) {
			n++
			if first == nil {
				first = q
			}
		}
	}
	if n == 2 {
		used := false
		for _, r := range *first.Referrers() {
			if _, ok := r.(*ssa.DebugRef); !ok {
				used = true
			}
		}
		c.Cond(used, "care", "additional variables once in "+shortFn(g), p.pos(g.Pos()), "additional variables that are iterated over are put into the models twice")
	}
}
