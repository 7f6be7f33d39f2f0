package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C19"] = checkC19 }

// checkC19: enumerating and counting report each model exactly once.  The
// iteration is followed path by path with the collector as a typestate, the
// collectors are judged by what their methods do with the books they keep, the
// blocking clause and the counts are evaluated symbolically.
func checkC19(c *Ctx) {
	c.Rule("protocol", "in the recursion the models of a finished iteration are committed, those of an unfinished one are rolled back and found again in the splits, and no iteration starts on the books of another", 1)
	c.Rule("split", "each split assignment is iterated over, with the assignment on the solver and over the same variables", 0)
	c.Rule("found", "every model the solver finds is added or the iteration says it is unfinished, and it is excluded before the solver is called again", 1)
	c.Rule("block", "a model is excluded by the clause with the opposite literal of each relevant variable that is on the solver, and no other", 1)
	c.Rule("books", "a collector adds each model once, commits what it added before it forgets it, forgets it on a rollback and leaves what is committed alone", 6)
	c.Rule("care", "what is not on the solver is counted or expanded in both phases, once for each variable", 0)
	c.Rule("count", "the count is the product over the components, with a factor of two for each variable left out, one for true and literals, none for false; products over conjunctions and sums over disjunctions", 2)
	c.Rule("canonical", "the canonical normal forms are built from the models of the formula (of its negation, with the literals negated, for a CNF)", 0)
	if c.fixture {
		return
	}
	k := &enumer{c: c, p: c.P}
	k.recursion()
	k.iteration()
	k.collectors()
	k.counting()
	k.dnnfCount()
	k.canonicalForms()
	k.scope()
	c.Extra["open"] = k.open
}

type enumer struct {
	c    *Ctx
	p    *Program
	open []string
	iter map[*ssa.Function]bool // functions that add models (and do not commit)
}

func (k *enumer) opened(f string, a ...any) { k.open = append(k.open, fmt.Sprintf(f, a...)) }

// collectorCall: the name of the collector method that is called.
func collectorCall(in ssa.Instruction) (string, *ssa.Call) {
	x, ok := in.(*ssa.Call)
	if !ok || !x.Call.IsInvoke() || !isNamed(x.Call.Value.Type(), "model/iter", "Collector") {
		return "", nil
	}
	return x.Call.Method.Name(), x
}

// closureCalls: the collector methods called by f and what it calls.
func (k *enumer) closureCalls(f *ssa.Function, seen map[*ssa.Function]bool, out map[string]bool, fns map[*ssa.Function]bool) {
	f = canonOf(f)
	if seen[f] || pkgOf(f) == nil || shortPkg(pkgOf(f)) != "model/iter" {
		return
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if n, _ := collectorCall(in); n != "" {
				out[n] = true
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := staticCallee(ci.Common())
			if g == nil {
				if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
					g, _ = mc.Fn.(*ssa.Function)
				}
			}
			if g != nil {
				fns[canonOf(g)] = true
				k.closureCalls(g, seen, out, fns)
			}
		}
	}
	for _, g := range f.AnonFuncs {
		k.closureCalls(g, seen, out, fns)
	}
}

func (k *enumer) recursion() {
	p, c := k.p, k.c
	k.iter = map[*ssa.Function]bool{}
	calls := map[*ssa.Function]map[string]bool{}
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if pkgOf(f) == nil || shortPkg(pkgOf(f)) != "model/iter" || f.Parent() != nil {
			continue
		}
		out, fns := map[string]bool{}, map[*ssa.Function]bool{}
		k.closureCalls(f, map[*ssa.Function]bool{}, out, fns)
		calls[f] = out
		if out["AddModel"] && !out["Commit"] && !out["Rollback"] && !out["RollbackAndReturnModels"] {
			k.iter[f] = true
		}
		if out["AddModel"] && out["Commit"] && fns[f] {
			roots = append(roots, f)
		}
	}
	if len(roots) == 0 {
		k.opened("no recursion over a collector found")
		return
	}
	for _, root := range roots {
		// a helper on the cycle is judged from the function that is entered first
		entered := len(roots) == 1
		for _, f := range p.Funcs {
			if f == root || calls[f] == nil {
				continue
			}
			for _, ci := range callsIn(f) {
				if g := staticCallee(ci.Common()); g != nil && canonOf(g) == root {
					isRoot := false
					for _, o := range roots {
						isRoot = isRoot || o == f
					}
					entered = entered || !isRoot
				}
			}
		}
		if entered {
			k.walkRoot(root)
			k.splits(root)
		}
	}
	_ = c
}

// isVarSetT: a set of variables, fixed or not.
func isVarSetT(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || shortPkg(n.Obj().Pkg()) != "formula" || n.TypeArgs().Len() != 1 {
		return false
	}
	return isNamed(n.TypeArgs().At(0), "formula", "Variable")
}

func (k *enumer) walkRoot(root *ssa.Function) {
	p, c := k.p, k.c
	w := NewWalker(p)
	w.MaxDepth = 5
	w.Values = "handler.State."
	w.Inline = func(g *ssa.Function, d int) bool {
		h := canonOf(g)
		if h == root || k.iter[h] || pkgOf(h) == nil || shortPkg(pkgOf(h)) != "model/iter" {
			return false
		}
		out := map[string]bool{}
		k.closureCalls(h, map[*ssa.Function]bool{}, out, map[*ssa.Function]bool{})
		return len(out) > 0
	}
	type res struct {
		pos, why string
		bad      bool
	}
	seen := map[string]*res{}
	say := func(key string, pos token.Pos, ok bool, why string) {
		r := seen[key]
		if r == nil {
			r = &res{pos: p.pos(pos)}
			seen[key] = r
		}
		if !ok && !r.bad {
			r.bad, r.why = true, why
		}
	}
	mainVars, mainIdx := "", -1
	state := func(st *PState, ci ssa.CallInstruction) string {
		t := fmt.Sprintf("tok:st%d", ci.Pos())
		w.dropFacts(st, t+"ok")
		st.mem[t+".Success"] = t + "ok"
		return t
	}
	at := func(fr *Frame, ci ssa.CallInstruction) string { return shortFn(fr.Fn) }
	w.OnCall = func(w *Walker, fr *Frame, st *PState, ci ssa.CallInstruction, g *ssa.Function, args []string) []string {
		col := st.TS["col"] // "", main, split
		var h *ssa.Function
		if g != nil {
			h = canonOf(g)
		}
		if h != nil && k.iter[h] {
			vi := -1
			for i, q := range h.Params {
				if isVarSetT(q.Type()) {
					vi = i
					break
				}
			}
			kind := "split"
			if vi >= 0 && vi < len(args) {
				if mainVars == "" {
					for i, q := range root.Params {
						if args[vi] == q.Name() {
							mainVars, mainIdx = q.Name(), i
						}
					}
				}
				if args[vi] == mainVars {
					kind = "main"
				}
			}
			if mainVars == "" {
				return nil
			}
			say("iteration over "+kind+" variables in "+at(fr, ci), ci.Pos(), col == "", "an iteration starts while the models of another one are neither committed nor rolled back")
			fin := fmt.Sprintf("tok:fin%d", ci.Pos())
			w.dropFacts(st, fin)
			s := state(st, ci)
			st.TS["col"], st.TS["fin"], st.TS["ok"] = kind, fin, s+"ok"
			sig := h.Signature.Results()
			out := make([]string, sig.Len())
			for i := range out {
				switch {
				case isState(sig.At(i).Type()):
					out[i] = s
				case types.Identical(sig.At(i).Type().Underlying(), types.Typ[types.Bool]):
					out[i] = fin
				default:
					return nil
				}
			}
			return out
		}
		if h == root {
			ok := col == ""
			say("recursion in "+at(fr, ci), ci.Pos(), ok, "the recursion starts while models are neither committed nor rolled back")
			if mainIdx >= 0 && mainIdx < len(args) {
				say("variables of the recursion in "+at(fr, ci), ci.Pos(), args[mainIdx] == mainVars, "the recursion does not iterate over the same variables")
			}
			return []string{state(st, ci)}
		}
		n, call := collectorCall(ci.(ssa.Instruction))
		if call == nil {
			if isFunc(g, "handler", "Success") || isFunc(g, "handler", "Cancelation") {
				t := state(st, ci)
				w.setFact(st, t+"ok", fmt.Sprint(isFunc(g, "handler", "Success")))
				return []string{t}
			}
			return nil
		}
		if debugWalk {
			fmt.Println("C19", n, p.pos(ci.Pos()), st.TS)
		}
		fin, ok := "", ""
		if col != "" {
			fin, ok = w.Truth(st, st.TS["fin"]), w.Truth(st, st.TS["ok"])
		}
		switch n {
		case "Commit":
			say("commit in "+at(fr, ci), ci.Pos(), col != "split", "the models of the split variables are committed")
			if col == "main" {
				say("commit of the iteration in "+at(fr, ci), ci.Pos(), fin == "true" || ok == "false", "the models of an iteration that may be unfinished are committed, and they are found again in the splits")
			}
			st.TS["col"] = ""
		case "Rollback":
			if col == "main" && ok != "false" {
				say("rollback of the iteration in "+at(fr, ci), ci.Pos(), fin == "false", "the models of a finished iteration are rolled back")
				st.TS["need"] = "split"
			}
			st.TS["col"] = ""
		case "RollbackAndReturnModels":
			say("split models in "+at(fr, ci), ci.Pos(), col == "split", "the split assignments are taken when the books do not hold the models of the split variables")
			if col == "split" {
				say("split models complete in "+at(fr, ci), ci.Pos(), fin == "true", "the split assignments are taken from an iteration that may be unfinished")
				st.TS["need"] = ""
			}
			st.TS["col"] = ""
			s := state(st, ci)
			sig := call.Call.Signature().Results()
			out := make([]string, sig.Len())
			for i := range out {
				if isState(sig.At(i).Type()) {
					out[i] = s
				} else {
					out[i] = fmt.Sprintf("tok:models%d", ci.Pos())
				}
			}
			return out
		default:
			return nil
		}
		return []string{state(st, ci)}
	}
	start := newPState()
	for _, m := range p.successStates() {
		start.mem["glob:"+m.String()+".Success"] = "true"
	}
	w.Run(root, start, func(fr *Frame, st *PState, r *ssa.Return, vs []string) {
		for i, v := range vs {
			if isState(r.Results[i].Type()) && (w.Truth(st, st.mem[v+".Success"]) == "false" || w.Truth(st, v+"ok") == "false" || w.Truth(st, st.mem[v]+"ok") == "false") {
				return
			}
		}
		if st.TS["fin"] == "" {
			return
		}
		if st.TS["col"] != "" && w.Truth(st, st.TS["ok"]) == "false" {
			return
		}
		if debugWalk {
			fmt.Println("C19 return", p.pos(r.Pos()), vs, st.TS)
		}
		say("return of "+shortFn(root), r.Pos(), st.TS["col"] == "", "the recursion returns while the models of an iteration are neither committed nor rolled back")
		say("models of "+shortFn(root), r.Pos(), st.TS["need"] == "", "the models of an unfinished iteration are rolled back and not found again in splits")
	})
	if w.Overrun {
		k.opened("%s: too many paths", shortFn(root))
		return
	}
	if mainVars == "" {
		k.opened("%s: the iteration over its variables was not found", shortFn(root))
		return
	}
	var keys []string
	for key := range seen {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		c.Cond(!seen[key].bad, "protocol", key, seen[key].pos, seen[key].why)
	}
}

// madeOf: the values a slice is made of: through append, copy, conversion and
// functions that pass a slice on.
func madeOf(v ssa.Value, out map[ssa.Value]bool, d int) {
	if v == nil || out[v] || d > 60 {
		return
	}
	out[v] = true
	copies := func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			if cl, ok := r.(*ssa.Call); ok {
				if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && cl.Call.Args[0] == v {
					madeOf(cl.Call.Args[1], out, d+1)
				}
			}
			if sl, ok := r.(*ssa.Slice); ok && !out[sl] {
				out[sl] = true
				for _, r2 := range *sl.Referrers() {
					if cl, ok := r2.(*ssa.Call); ok {
						if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && cl.Call.Args[0] == ssa.Value(sl) {
							madeOf(cl.Call.Args[1], out, d+1)
						}
					}
				}
			}
			if ia, ok := r.(*ssa.IndexAddr); ok && ia.X == v {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						madeOf(st.Val, out, d+1)
					}
				}
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Call:
		for _, a := range x.Call.Args {
			madeOf(a, out, d+1)
		}
		if x.Call.IsInvoke() {
			madeOf(x.Call.Value, out, d+1)
		}
		copies(x)
	case *ssa.Slice:
		madeOf(x.X, out, d+1)
		copies(x)
	case *ssa.MakeSlice, *ssa.Alloc:
		copies(v)
	case *ssa.Phi:
		for _, e := range x.Edges {
			madeOf(e, out, d+1)
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
					madeOf(st.Val, out, d+1)
				}
			}
			return
		}
		madeOf(x.X, out, d+1)
	case *ssa.FieldAddr:
		madeOf(x.X, out, d+1)
	case *ssa.Field:
		madeOf(x.X, out, d+1)
	case *ssa.IndexAddr:
		madeOf(x.X, out, d+1)
	case *ssa.Index:
		madeOf(x.X, out, d+1)
	case *ssa.Extract:
		madeOf(x.Tuple, out, d+1)
	case *ssa.BinOp:
		madeOf(x.X, out, d+1)
		madeOf(x.Y, out, d+1)
	case *ssa.Convert:
		madeOf(x.X, out, d+1)
	case *ssa.ChangeType:
		madeOf(x.X, out, d+1)
	case *ssa.MakeInterface:
		madeOf(x.X, out, d+1)
	case *ssa.Range:
		madeOf(x.X, out, d+1)
	case *ssa.Next:
		madeOf(x.Iter, out, d+1)
	}
}

// splits: the recursion runs once for each split assignment, under it and the
// assignments above.
func (k *enumer) splits(root *ssa.Function) {
	p, c := k.p, k.c
	li := -1
	for i, q := range root.Params {
		if sl, ok := q.Type().Underlying().(*types.Slice); ok && isNamed(sl.Elem(), "formula", "Literal") {
			li = i
		}
	}
	if li < 0 {
		k.opened("%s has no split assignment", shortFn(root))
		return
	}
	// the assignment is put on the solver before the iteration
	isIter := func(in ssa.Instruction) bool {
		cl, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		g := staticCallee(&cl.Call)
		return g != nil && k.iter[canonOf(g)]
	}
	onSolver := func(in ssa.Instruction) bool {
		cl, ok := in.(*ssa.Call)
		if !ok || isIter(in) {
			return false
		}
		g := staticCallee(&cl.Call)
		if g == nil || canonOf(g) == root || !strings.HasPrefix(shortPkg(pkgOf(g)), "sat") && shortPkg(pkgOf(g)) != "model/iter" {
			return false
		}
		from := map[ssa.Value]bool{}
		for _, a := range cl.Call.Args {
			madeOf(a, from, 0)
		}
		return from[root.Params[li]]
	}
	if hit := avoids(root, nil, onSolver, isIter); hit != nil {
		used := false
		for _, b := range root.Blocks {
			for _, in := range b.Instrs {
				used = used || onSolver(in)
			}
		}
		loops := false
		for _, r := range *root.Params[li].Referrers() {
			if bi, ok := r.(*ssa.IndexAddr); ok && !used {
				loops = loops || !(hit.Block() == bi.Block() && sameOrBefore(hit, bi)) && !hit.Block().Dominates(bi.Block())
			}
		}
		if loops {
			k.opened("%s: the split assignment is put on the solver in a way not followed", shortFn(root))
		} else {
			c.Bad("split", "assignment on the solver in "+shortFn(root), p.pos(hit.Pos()), "the iteration can start without the split assignment on the solver")
		}
	} else {
		c.Ok("split", "assignment on the solver in "+shortFn(root), p.pos(root.Pos()))
	}
	found := false
	for _, f := range p.Funcs {
		if pkgOf(f) == nil || shortPkg(pkgOf(f)) != "model/iter" {
			continue
		}
		for _, ci := range callsIn(f) {
			cl, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			g := staticCallee(&cl.Call)
			if g == nil || canonOf(g) != root || f.Name() == "Iterate" {
				continue
			}
			from := map[ssa.Value]bool{}
			madeOf(cl.Call.Args[li], from, 0)
			var models *ssa.Call
			var elem *ssa.IndexAddr
			for v := range from {
				if n, x := collectorCallV(v); n == "RollbackAndReturnModels" {
					models = x
				}
				if ia, ok := v.(*ssa.IndexAddr); ok && isNamed(deref(deref(ia.Type())), "model", "Model") {
					elem = ia
				}
			}
			if f != root && models == nil {
				k.opened("%s: recursion in a helper", shortFn(f))
				continue
			}
			found = true
			key := "recursion in " + shortFn(f)
			switch {
			case models == nil:
				c.Bad("split", key, p.pos(cl.Pos()), "the assignment of the recursion is not made of a returned split assignment")
			case elem == nil:
				k.opened("%s: the loop over the split assignments is not followed", shortFn(f))
			default:
				part := false
				for v := range from {
					if sl, ok := v.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
						if st, ok := sl.Type().Underlying().(*types.Slice); ok && isNamed(deref(st.Elem()), "model", "Model") {
							part = true
						}
					}
				}
				c.Cond(!part, "split", key, p.pos(cl.Pos()), "only a part of the split assignments is iterated over")
				stop := func(in ssa.Instruction) bool { return in == ssa.Instruction(cl) }
				goal := func(in ssa.Instruction) bool { return in == ssa.Instruction(elem) }
				hit := avoids(f, elem, stop, goal)
				c.Cond(hit == nil, "split", "each split assignment in "+shortFn(f), p.pos(cl.Pos()), "a split assignment can be passed over")
			}
		}
	}
	if !found {
		k.opened("no recursion into the splits found")
	}
}

func collectorCallV(v ssa.Value) (string, *ssa.Call) {
	if x, ok := v.(*ssa.Call); ok {
		return collectorCall(x)
	}
	return "", nil
}

// avoidsIn is avoids along the edges r leaves open.
func avoidsIn(r *sccpResult, start ssa.Instruction, stop, goal func(ssa.Instruction) bool) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) ssa.Instruction
	walk = func(b *ssa.BasicBlock, from int) ssa.Instruction {
		for _, in := range b.Instrs[from:] {
			if goal(in) {
				return in
			}
			if stop(in) {
				return nil
			}
		}
		for _, s := range b.Succs {
			if r.Edges[[2]*ssa.BasicBlock{b, s}] && !seen[s] {
				seen[s] = true
				if h := walk(s, 0); h != nil {
					return h
				}
			}
		}
		return nil
	}
	for i, in := range start.Block().Instrs {
		if in == start {
			return walk(start.Block(), i+1)
		}
	}
	return nil
}

func isBoolSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.Bool])
}

func isInt32Slice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.Int32])
}

func (k *enumer) iteration() {
	p, c := k.p, k.c
	done := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if pkgOf(f) == nil || shortPkg(pkgOf(f)) != "model/iter" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if n, add := collectorCall(in); n == "AddModel" {
					k.oneIteration(f, add, done)
				}
			}
		}
	}
	_ = c
}

func isSolveCall(in ssa.Instruction) bool {
	cl, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	g := staticCallee(&cl.Call)
	return g != nil && pkgOf(g) != nil && shortPkg(pkgOf(g)) == "sat" && isNamed(deref(recvType(g)), "sat", "Solver") && (g.Name() == "Call" || g.Name() == "Sat")
}

func recvType(g *ssa.Function) types.Type {
	if r := g.Signature.Recv(); r != nil {
		return r.Type()
	}
	return types.Typ[types.Invalid]
}

// excludes: the call adds a clause to the solver (itself or on every path of
// the function it calls).
func (k *enumer) excludes(in ssa.Instruction, d int) bool {
	cl, ok := in.(*ssa.Call)
	if !ok || d > 3 {
		return false
	}
	g := staticCallee(&cl.Call)
	if g == nil || pkgOf(g) == nil {
		return false
	}
	if shortPkg(pkgOf(g)) == "sat" {
		return (isNamed(deref(recvType(g)), "sat", "CoreSolver") || isNamed(deref(recvType(g)), "sat", "Solver")) && strings.HasPrefix(g.Name(), "Add")
	}
	h := canonOf(g)
	if shortPkg(pkgOf(h)) != "model/iter" || len(h.Blocks) == 0 {
		return false
	}
	return avoids(h, nil, func(in ssa.Instruction) bool { return k.excludes(in, d+1) }, isReturn) == nil
}

func (k *enumer) oneIteration(f *ssa.Function, add *ssa.Call, done map[*ssa.Function]bool) {
	p, c := k.p, k.c
	name := shortFn(f)
	mdl := add.Call.Args[0]
	solves := 0
	var solve ssa.Instruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if isSolveCall(in) {
				solves++
				solve = in
			}
		}
	}
	if solves == 0 {
		k.opened("%s: no call of the solver beside AddModel", name)
		return
	}
	ex := func(in ssa.Instruction) bool { return k.excludes(in, 0) }
	hit := avoids(f, add, ex, isSolveCall)
	c.Cond(hit == nil, "found", "excluded in "+name, p.pos(add.Pos()), "the solver can be called again without the model having been excluded")
	// the clause is made of the model
	var blk *ssa.Call
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ex(in) && avoids(f, add, func(ssa.Instruction) bool { return false }, func(i ssa.Instruction) bool { return i == in }) != nil {
				blk = in.(*ssa.Call)
				from := map[ssa.Value]bool{}
				for _, a := range blk.Call.Args {
					madeOf(a, from, 0)
				}
				if from[mdl] {
					c.Ok("found", "clause of the model in "+name, p.pos(in.Pos()))
				} else {
					c.Bad("found", "clause of the model in "+name, p.pos(in.Pos()), "the clause that is added is not made of the model that was found")
				}
			}
		}
	}
	fixed := func(sat bool, more bool) *sccp {
		return &sccp{p: p, maxD: 1, FixG: func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
			b := func(x bool) (cval, bool) { return cval{v: constant.MakeBool(x)}, true }
			switch x := v.(type) {
			case *ssa.Call:
				if isSolveCall(x) {
					if types.Identical(x.Type().Underlying(), types.Typ[types.Bool]) {
						return b(sat)
					}
					return cBottom, true
				}
				switch g := staticCallee(&x.Call); {
				case g == nil:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && more && isBoolSlice(x.Call.Args[0].Type()) {
						return cInt(5), true
					}
				case isNamed(deref(recvType(g)), "sat", "CallResult") && g.Name() == "OK":
					return b(true)
				case isNamed(deref(recvType(g)), "sat", "CallResult") && g.Name() == "Sat":
					return b(sat)
				}
			case *ssa.Field:
				if more && isState(x.X.Type()) && fieldName(x.X.Type(), x.Field) == "Success" {
					return b(true)
				}
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && more && isState(deref(fa.X.Type())) && fieldName(deref(fa.X.Type()), fa.Field) == "Success" {
					return b(true)
				}
			}
			return cBottom, false
		}}
	}
	fi := -1
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if types.Identical(f.Signature.Results().At(i).Type().Underlying(), types.Typ[types.Bool]) {
			fi = i
		}
	}
	if fi < 0 {
		k.opened("%s does not say whether it is finished", name)
		return
	}
	finished := func(r *sccpResult, want bool) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			ret, ok := in.(*ssa.Return)
			if !ok || fi >= len(ret.Results) {
				return false
			}
			v := r.get(ret.Results[fi])
			return v.v != nil && v.v.Kind() == constant.Bool && constant.BoolVal(v.v) == want
		}
	}
	isAdd := func(in ssa.Instruction) bool { return in == ssa.Instruction(add) }
	none := func(ssa.Instruction) bool { return false }
	r := fixed(true, false).Run(f, selfArgs(f))
	g1 := finished(r, true)
	hit = avoidsIn(r, solve, isAdd, func(in ssa.Instruction) bool { return isSolveCall(in) || g1(in) })
	c.Cond(hit == nil, "found", "added in "+name, p.pos(add.Pos()), "a model that was found can be passed over")
	r = fixed(true, true).Run(f, selfArgs(f))
	hit = avoidsIn(r, solve, none, finished(r, true))
	c.Cond(hit == nil, "found", "unfinished in "+name, p.pos(add.Pos()), "the iteration says it is finished though the solver still finds models")
	r = fixed(false, true).Run(f, selfArgs(f))
	hit = avoidsIn(r, solve, none, func(in ssa.Instruction) bool { return isAdd(in) || isSolveCall(in) })
	c.Cond(hit == nil, "found", "end in "+name, p.pos(add.Pos()), "the iteration goes on when there is no further model")
	hit = avoidsIn(r, solve, none, finished(r, false))
	c.Cond(hit == nil, "found", "finished in "+name, p.pos(add.Pos()), "the iteration says it is unfinished when there is no further model")
	// the clause
	if blk == nil {
		return
	}
	gens := []*ssa.Function{f}
	from := map[ssa.Value]bool{}
	for _, a := range blk.Call.Args {
		madeOf(a, from, 0)
	}
	for v := range from {
		if cl, ok := v.(*ssa.Call); ok {
			if g := staticCallee(&cl.Call); g != nil && shortPkg(pkgOf(g)) == "model/iter" {
				gens = append(gens, canonOf(g))
			}
		}
	}
	if g := staticCallee(&blk.Call); g != nil && shortPkg(pkgOf(g)) == "model/iter" {
		for _, ci := range callsIn(canonOf(g)) {
			if h := staticCallee(ci.Common()); h != nil && shortPkg(pkgOf(h)) == "model/iter" {
				gens = append(gens, canonOf(h))
			}
		}
		gens = append(gens, canonOf(g))
	}
	for _, g := range gens {
		if !done[g] {
			done[g] = true
			k.blocking(g)
		}
	}
}

// blocking evaluates the loop that turns a model into a clause.
func (k *enumer) blocking(g *ssa.Function) {
	p, c := k.p, k.c
	var loads []*ssa.UnOp // model values
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
				if ia, ok := u.X.(*ssa.IndexAddr); ok && isBoolSlice(ia.X.Type()) {
					loads = append(loads, u)
				}
			}
		}
	}
	for _, ld := range loads {
		idx := stripConv(ld.X.(*ssa.IndexAddr).Index)
		indirect := false
		if u, ok := idx.(*ssa.UnOp); ok && u.Op == token.MUL {
			if ia, ok := u.X.(*ssa.IndexAddr); ok && isInt32Slice(ia.X.Type()) {
				indirect = true
			}
		}
		var indexAt ssa.Instruction
		if in, ok := idx.(ssa.Instruction); ok {
			indexAt = in
		} else {
			k.opened("%s: index of the model not followed", shortFn(g))
			continue
		}
		ns := []int{0, 1, 5}
		if indirect {
			ns = append(ns, -1)
		}
		for _, n := range ns {
			for _, val := range []bool{true, false} {
				s := &sccp{p: p, maxD: 2, FixG: func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
					if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
						if ia, ok := u.X.(*ssa.IndexAddr); ok {
							if isBoolSlice(ia.X.Type()) {
								return cval{v: constant.MakeBool(val)}, true
							}
							if indirect && isInt32Slice(ia.X.Type()) {
								return cInt(n), true
							}
						}
					}
					if !indirect && v == idx {
						return cInt(n), true
					}
					return cBottom, false
				}}
				args := selfArgs(g)
				r := s.Run(g, args)
				if n >= 0 && !r.Reach[ld.Block()] {
					c.Bad("block", fmt.Sprintf("%s index %d", shortFn(g), n), p.pos(ld.Pos()), "the variable with this index is left out of the blocking clause")
					continue
				}
				var got []string
				hit := func(in ssa.Instruction) bool { return false }
				hits := map[ssa.Instruction]bool{}
				for _, b := range g.Blocks {
					if !r.Reach[b] {
						continue
					}
					for _, in := range b.Instrs {
						var vs []ssa.Value
						switch x := in.(type) {
						case *ssa.Call:
							if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(x.Call.Args) == 2 && isInt32Slice(x.Type()) {
								vs = varargs(x.Call.Args[1])
								if vs == nil {
									got = append(got, "?")
								}
							}
						case *ssa.Store:
							if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isInt32Slice(ia.X.Type()) {
								vs = []ssa.Value{x.Val}
							}
						}
						if len(vs) == 0 || !avoidsFrom(r, indexAt, in) {
							continue
						}
						hits[in] = true
						for _, v := range vs {
							if m, ok := r.get(v).Int(); ok {
								got = append(got, fmt.Sprint(m))
							} else {
								got = append(got, "?")
							}
						}
					}
				}
				hit = func(in ssa.Instruction) bool { return hits[in] }
				key := fmt.Sprintf("%s index %d value %v", shortFn(g), n, val)
				if !indirect {
					key += " (all variables)"
				}
				if n < 0 {
					c.Cond(len(got) == 0, "block", key, p.pos(ld.Pos()), "a variable that is not on the solver gets a literal in the blocking clause: "+strings.Join(got, ","))
					continue
				}
				if len(got) == 1 && got[0] == "?" {
					k.opened("%s: literal not followed", key)
					continue
				}
				want := 2 * n
				if val {
					want++
				}
				ok := len(got) == 1 && got[0] == fmt.Sprint(want)
				c.Cond(ok, "block", key, p.pos(ld.Pos()), fmt.Sprintf("the blocking clause gets %s, not %d", strings.Join(got, ","), want))
				if ok && !always(r, ld, hit) {
					c.Bad("block", key+" always", p.pos(ld.Pos()), "the literal can be left out of the blocking clause")
				}
			}
		}
	}
}

// avoidsFrom: in can be reached from at without passing at again.
func avoidsFrom(r *sccpResult, at, in ssa.Instruction) bool {
	return avoidsIn(r, at, func(i ssa.Instruction) bool { return i == at }, func(i ssa.Instruction) bool { return i == in }) != nil
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// callsIn are the calls in the body of f.
func callsIn(f *ssa.Function) (out []ssa.CallInstruction) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				out = append(out, ci)
			}
		}
	}
	return
}

// successStates are the variables that hold handler.Success() for good.
func (p *Program) successStates() (out []*ssa.Global) {
	good, bad := map[*ssa.Global]bool{}, map[*ssa.Global]bool{}
	fns := append([]*ssa.Function{}, p.Funcs...)
	for _, pk := range p.Pkgs {
		if sp := p.SSA.Package(pk.Types); sp != nil && sp.Func("init") != nil {
			fns = append(fns, sp.Func("init"))
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				if cl, ok := st.Val.(*ssa.Call); ok && isFunc(staticCallee(&cl.Call), "handler", "Success") {
					good[g] = true
				} else {
					bad[g] = true
				}
			}
		}
	}
	for g := range good {
		if !bad[g] {
			out = append(out, g)
		}
	}
	return
}
