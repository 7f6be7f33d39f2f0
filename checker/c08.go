package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C08"] = checkC08 }

func checkC08(c *Ctx) {
	c.Rule("arguments", "a public function does not write to, reorder or append into the slices, maps, sets, models and assignments it is given", 150)
	c.Rule("formulas", "the operands, literals and coefficients of a formula are never written, reordered or appended to once the formula exists", 3)
	c.Rule("sets", "an immutable set never changes: its elements are written only while it is built or through the mutable set that owns it", 2)
	c.Rule("kept", "a formula does not keep a slice that belongs to the caller", 8)
	c.Rule("cached", "a cached result is never used as the target of a computation", 2)
	c.Rule("returned", "data handed out by a public function is not written again by the library", 60)
	c.Rule("handed-over", "a slice that was put into a result, a list or a formula is not used as a buffer again", 40)
	if c.fixture {
		return
	}
	p := c.P
	a := newAliasing(p)
	nodes := formulaNodes(p)

	// arguments
	for _, f := range p.Funcs {
		if !exported(f) || f.Signature.Recv() != nil && !exportedRecv(f) {
			continue
		}
		for i, prm := range f.Params {
			if i == 0 && f.Signature.Recv() != nil || !dataType(prm.Type()) || rawLits(prm.Type()) {
				continue
			}
			key := rel(f) + " " + prm.Name()
			var w *witness
			for d := 0; d < 2 && w == nil; d++ {
				w = (&fate{a: a, app: true, natural: true}).of(label{fn: f, idx: i, deep: d})
				if w != nil && d == 1 && mutableParam(prm.Type()) {
					w = nil
				}
			}
			if w != nil && mutableParam(prm.Type()) {
				w = nil
			}
			// a cache is there to keep what it is given
			if w != nil && kept(a, label{fn: f, idx: i}, "functionCache") {
				w = nil
			}
			c.Cond(w == nil, "arguments", key, p.pos(f.Pos()), fmt.Sprintf("the argument %s is changed: %s", prm.Name(), w.path(p)))
		}
	}

	// formulas and sets
	var fields []string
	for k := range nodes {
		fields = append(fields, k)
	}
	sort.Strings(fields)
	for _, k := range fields {
		var w *witness
		for d := 0; d < 2 && w == nil; d++ {
			w = (&fate{a: a, app: true, natural: true}).of(label{field: k, deep: d})
		}
		c.Cond(w == nil, "formulas", k, "", fmt.Sprintf("the data of a formula (%s) is changed: %s", k, w.path(p)))
	}
	for _, k := range nodeMaps(p) {
		var w *witness
		for d := 1; d < 3 && w == nil; d++ {
			w = (&fate{a: a, app: true, natural: true}).of(label{field: k, deep: d})
		}
		c.Cond(w == nil, "formulas", k, "", fmt.Sprintf("the data of a formula (held in %s) is changed: %s", k, w.path(p)))
	}
	set := p.Type("formula", "fset")
	if set == nil {
		c.Bad("sets", "formula.fset", "", "the type of the immutable sets was not found")
	}
	w := (&fate{a: a}).of(label{field: "formula.fset.content"})
	c.Cond(w == nil, "sets", "content", "", fmt.Sprintf("the sorted content of a set is changed: %s", w.path(p)))
	c08Sets(c)

	// kept
	for _, f := range p.Funcs {
		if !exported(f) {
			continue
		}
		for i, prm := range f.Params {
			if i == 0 && f.Signature.Recv() != nil || !dataType(prm.Type()) {
				continue
			}
			if pk := pkgOf(f); pk == nil || shortPkg(pk) != "formula" {
				continue
			}
			if _, ok := prm.Type().Underlying().(*types.Slice); !ok {
				continue
			}
			bad := ""
			for _, k := range fields {
				if w := a.keeps[label{fn: f, idx: i}][label{field: k}]; w != nil {
					bad = k + ": " + w.path(p)
				}
			}
			for k, w := range a.keeps[label{fn: f, idx: i}] {
				if k.deep > 0 && strings.HasPrefix(k.field, "formula.CachingFactory.") && !strings.HasSuffix(k.field, "functionCache") {
					bad = k.field + ": " + w.path(p)
				}
			}
			c.Cond(bad == "", "kept", rel(f)+" "+prm.Name(), p.pos(f.Pos()), "the formula shares the caller's slice, kept in "+bad)
		}
	}

	// cached
	for _, k := range cacheFields(p) {
		var w *witness
		for d := 0; d < 3 && w == nil; d++ {
			if k == "formula.CachingFactory.functionCache" && d < 2 {
				continue
			}
			w = (&fate{a: a}).of(label{field: k, deep: d})
		}
		c.Cond(w == nil, "cached", k, "", fmt.Sprintf("a cached result (%s) is changed: %s", k, w.path(p)))
	}

	// returned
	plain := plainFields(p)
	for _, f := range p.Funcs {
		if !exported(f) || !exportedRecv(f) {
			continue
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			t := f.Signature.Results().At(i).Type()
			if !dataType(t) {
				continue
			}
			bad := ""
			for l := range a.ret[f][i] {
				if !l.isField() || plain[l.field] {
					continue
				}
				if w := (&fate{a: a}).of(l); w != nil {
					bad = l.field + ": " + w.path(p)
				}
			}
			c.Cond(bad == "", "returned", fmt.Sprintf("%s result %d", rel(f), i), p.pos(f.Pos()), "the returned data belongs to "+bad)
		}
	}

	// handed over
	for l, w := range a.ext {
		if l.isField() && !plain[l.field] {
			v := (&fate{a: a, natural: true}).of(l)
			c.Cond(v == nil, "handed-over", rel(w.fn)+" "+l.field, p.pos(w.pos), fmt.Sprintf("the data of %s is %s and written again: %s", l.field, w.what, v.path(p)))
		}
	}
	for l, m := range a.at {
		put := false
		for _, b := range m {
			put = put || b&1 != 0
		}
		if !put {
			continue
		}
		in, wr := a.reused(l)
		key := rel(l.fn)
		pos := p.pos(l.fn.Pos())
		if in != nil {
			pos = p.pos(wr.Pos())
			c.Bad("handed-over", key, pos, fmt.Sprintf("a slice put into a container at %s is written again", p.pos(in.Pos())))
		} else {
			c.Ok("handed-over", key, pos)
		}
	}
}

func kept(a *aliasing, l label, suffix string) bool {
	for k := range a.keeps[l] {
		if strings.HasSuffix(k.field, suffix) {
			return true
		}
	}
	return false
}

// rawLits: clauses of the solvers, handed over for good.
func rawLits(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// mutableParam: parameters whose purpose is to be filled.
func mutableParam(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok {
		return false
	}
	return strings.HasPrefix(strings.ToLower(n.Obj().Name()), "mutable")
}

func exportedRecv(f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil {
		return true
	}
	n, ok := types.Unalias(deref(r.Type())).(*types.Named)
	return ok && n.Obj().Exported()
}

// plainFields: the fields of plain data objects; which object they belong to
// is not told apart.
func plainFields(p *Program) map[string]bool {
	out := map[string]bool{}
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if st := structOf(tn.Type()); st != nil && dataType(tn.Type()) {
					for i := 0; i < st.NumFields(); i++ {
						out[fieldKey(tn.Type(), i)] = true
					}
				}
			}
		}
	}
	// what a formula is made of is never written at all
	for k := range formulaNodes(p) {
		delete(out, k)
	}
	return out
}

// formulaNodes: the slices of the structs a factory stores for its formulas.
func formulaNodes(p *Program) map[string]bool {
	out := map[string]bool{}
	fac := p.Type("formula", "CachingFactory")
	st := structOf(fac)
	if st == nil {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		m, ok := st.Field(i).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		n := structOf(m.Elem())
		if n == nil {
			continue
		}
		for j := 0; j < n.NumFields(); j++ {
			if _, ok := n.Field(j).Type().Underlying().(*types.Slice); ok {
				out[fieldKey(m.Elem(), j)] = true
			}
		}
	}
	return out
}

// nodeMaps: the tables of the factory that hold the formulas with a list of
// operands, and the tables their operands are looked up with.
func nodeMaps(p *Program) []string {
	var out []string
	fac := p.Type("formula", "CachingFactory")
	st := structOf(fac)
	if st == nil {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		m, ok := st.Field(i).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		n := structOf(m.Elem())
		if n == nil {
			continue
		}
		for j := 0; j < n.NumFields(); j++ {
			if _, ok := n.Field(j).Type().Underlying().(*types.Slice); ok {
				out = append(out, fieldKey(fac, i))
				break
			}
		}
	}
	return out
}

// cacheFields: fields that hold computed results for later use.
func cacheFields(p *Program) []string {
	out := []string{"formula.CachingFactory.functionCache"}
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || !strings.Contains(strings.ToLower(n), "cache") {
				continue
			}
			st := structOf(tn.Type())
			if st == nil {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if isNamedPath(st.Field(i).Type(), "math/big", "Int") {
					out = append(out, fieldKey(tn.Type(), i))
				}
			}
		}
	}
	return out
}

// c08Sets: the element map of an immutable set is written only while the set
// is built, or through the mutable set around it.
func c08Sets(c *Ctx) {
	n := 0
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var m ssa.Value
				switch x := in.(type) {
				case *ssa.MapUpdate:
					m = x.Map
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						m = x.Common().Args[0]
					}
				}
				if m == nil {
					continue
				}
				u, ok := m.(*ssa.UnOp)
				if !ok {
					continue
				}
				fa, ok := u.X.(*ssa.FieldAddr)
				if !ok || fieldKey(fa.X.Type(), fa.Field) != "formula.fset.elements" {
					continue
				}
				n++
				ok = false
				switch base := fa.X.(type) {
				case *ssa.Alloc:
					ok = true
				case *ssa.UnOp:
					if fb, is := base.X.(*ssa.FieldAddr); is && strings.HasPrefix(fieldKey(fb.X.Type(), fb.Field), "formula.mutableFset.") {
						ok = true
					}
				}
				c.Cond(ok, "sets", fmt.Sprintf("%s write %d", rel(f), n), c.P.pos(in.Pos()), "an element of a set is written that is neither under construction nor owned by a mutable set")
			}
		}
	}
}
