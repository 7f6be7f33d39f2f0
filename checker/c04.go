package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C04"] = checkC04 }

// solverMutators are the operations whose very purpose is to change the
// constraints of a SAT solver; everything else is a query.
var solverMutators = map[string]bool{
	"Solver.Add": true, "Solver.AddProposition": true, "Solver.AddIncrementalCC": true, "Solver.LoadState": true,
	"Solver.SaveState": true, // no change, and its effect is followed by the rules
}

// solverModes are the fields that hold something only while a query runs.
var solverModes = map[string]bool{
	"sat.CoreSolver.assumptions": true, "sat.CoreSolver.assumptionProps": true,
	"sat.CoreSolver.computingBackbone": true, "sat.CoreSolver.inSatCall": true,
}

// core operations that change the problem on a core solver
var coreMutators = []string{"CoreSolver.AddClause", "CoreSolver.addUnitClause", "CoreSolver.addAtMost"}

// solverHolder reports whether a value of type t can carry a SAT solver.
func (p *Program) solverHolder(t types.Type) bool {
	if p.holds == nil {
		p.holds = map[string]bool{}
	}
	return p.holder(t, map[string]bool{}, 0)
}

func (p *Program) holder(t types.Type, seen map[string]bool, d int) bool {
	if d > 8 {
		return false
	}
	k := types.TypeString(t, nil)
	if v, ok := p.holds[k]; ok {
		return v
	}
	if seen[k] {
		return false
	}
	seen[k] = true
	res := false
	if isNamed(t, "sat", "Solver") || isNamed(t, "sat", "CoreSolver") {
		res = true
	} else {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			res = p.holder(u.Elem(), seen, d+1)
		case *types.Struct:
			for i := 0; i < u.NumFields() && !res; i++ {
				res = p.holder(u.Field(i).Type(), seen, d+1)
			}
		case *types.Slice:
			res = p.holder(u.Elem(), seen, d+1)
		case *types.Array:
			res = p.holder(u.Elem(), seen, d+1)
		case *types.Map:
			res = p.holder(u.Elem(), seen, d+1) || p.holder(u.Key(), seen, d+1)
		case *types.Tuple:
			for i := 0; i < u.Len() && !res; i++ {
				res = p.holder(u.At(i).Type(), seen, d+1)
			}
		case *types.Interface:
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && u.NumMethods() > 0 {
				for _, it := range p.namedTypes() {
					if types.Implements(it, u) || types.Implements(types.NewPointer(it), u) {
						if p.holder(it, seen, d+1) {
							res = true
							break
						}
					}
				}
			}
		}
	}
	if d == 0 {
		p.holds[k] = res
	}
	return res
}

func (p *Program) namedTypes() []types.Type {
	if p.named != nil {
		return p.named
	}
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
					if _, isI := nt.Underlying().(*types.Interface); !isI {
						p.named = append(p.named, nt)
					}
				}
			}
		}
	}
	return p.named
}

type c04 struct {
	c       *Ctx
	p       *Program
	prim    map[*ssa.Function]bool
	save    *ssa.Function
	load    *ssa.Function
	touch   map[*ssa.Function]bool // reaches a primitive, saveState or loadState
	assump  map[string]bool
	queued  map[*ssa.Function]bool
	work    []*ssa.Function
	origins map[string]map[string]bool // opaque term -> solver roots it may hold
}

func checkC04(c *Ctx) {
	p := c.P
	c.Rule("query-restores", "on every path of a query from the first constraint, variable or assumption it puts on the caller's SAT solver to its return, the state saved before that is loaded again", 14)
	c.Rule("call-clears-assumptions", "the assumptions a query sets on the solver, and their propositions, are cleared again on every path to its return", 14)
	c.Rule("save-before-change", "a state that a query loads at its end was saved before the query changed the solver", 3)
	c.Rule("maxsat-restores", "on every path of a MaxSAT solve call the state saved before the algorithm ran is loaded before the call returns", 1)
	a := &c04{c: c, p: p, prim: map[*ssa.Function]bool{}, touch: map[*ssa.Function]bool{}, queued: map[*ssa.Function]bool{}, origins: map[string]map[string]bool{}}
	for _, n := range coreMutators {
		f := p.Func("sat", n)
		if f == nil {
			if n == "CoreSolver.AddClause" {
				c.Bad("query-restores", "anchor sat."+n, "", "the operation cannot be found")
			}
			continue
		}
		a.prim[f] = true
	}
	a.save, a.load = p.Func("sat", "CoreSolver.saveState"), p.Func("sat", "CoreSolver.loadState")
	if a.save == nil || a.load == nil {
		// found by what they do: called by the exported operations
		a.save = p.soleCallee(p.Func("sat", "Solver.SaveState"), "sat", "CoreSolver")
		a.load = p.soleCallee(p.Func("sat", "Solver.LoadState"), "sat", "CoreSolver")
	}
	if a.save == nil || a.load == nil {
		c.Bad("query-restores", "anchor save/load", "", "the save and load operations of the core solver cannot be found")
		return
	}
	// functions that (transitively) touch the problem on a solver
	var rev func(f *ssa.Function)
	rev = func(f *ssa.Function) {
		if a.touch[f] {
			return
		}
		a.touch[f] = true
		for _, s := range p.caller[f] {
			rev(s.fn)
		}
	}
	for f := range a.prim {
		rev(f)
	}
	rev(a.save)
	rev(a.load)
	for _, f := range p.Funcs {
		for k := range p.mods().own[f] {
			if solverModes[k] {
				rev(f)
			}
		}
	}
	for _, f := range p.Funcs {
		if !exported(f) || !a.touch[f] {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			if isNamed(r.Type(), "sat", "CoreSolver") {
				continue
			}
			if isNamed(r.Type(), "sat", "Solver") && solverMutators["Solver."+f.Name()] {
				continue
			}
		}
		has := false
		for _, q := range f.Params {
			if isNamed(q.Type(), "sat", "Solver") {
				has = true
			}
		}
		if has {
			a.queue(f)
		}
	}
	if f := p.Func("sat", "CoreSolver.SolveWithAssumptions"); f != nil {
		a.queue(f)
	}
	// a sub-iteration leaves the solver as it found it for the next one
	for _, f := range p.Funcs {
		if exported(f) || !a.touch[f] || f.Parent() != nil || shortPkg(pkgOf(f)) != "model/iter" {
			continue
		}
		for _, s := range p.callee[f] {
			if s.to == a.save || isFunc(s.to, "sat", "Solver.SaveState") {
				for _, q := range f.Params {
					if isNamed(q.Type(), "sat", "Solver") || isNamed(q.Type(), "sat", "CoreSolver") {
						a.queue(f)
					}
				}
			}
		}
	}
	// a query called by another one is judged once, as an obligation of its own
	for len(a.work) > 0 {
		f := a.work[0]
		a.work = a.work[1:]
		a.check(f)
	}
	c.maxsatRestores()
}

func (p *Program) soleCallee(f *ssa.Function, pkg, typ string) *ssa.Function {
	if f == nil {
		return nil
	}
	for _, s := range p.callee[f] {
		if r := s.to.Signature.Recv(); r != nil && isNamed(r.Type(), pkg, typ) {
			return s.to
		}
	}
	return nil
}

func (a *c04) queue(f *ssa.Function) {
	if !a.queued[f] {
		a.queued[f] = true
		a.work = append(a.work, f)
	}
}

// roots are the parameters whose solver the term can denote or carry.
func (a *c04) roots(st *PState, t string, params map[string]bool, d int) map[string]bool {
	out := map[string]bool{}
	if d > 4 {
		return out
	}
	head := t
	if i := strings.IndexAny(head, ".!["); i > 0 && !strings.HasPrefix(head, "&") && !strings.HasPrefix(head, "v:") {
		head = head[:i]
	}
	if params[head] {
		out[head] = true
	}
	if strings.HasPrefix(t, "&") {
		base := allocBase(t)
		for k, v := range st.mem {
			if k != base && !strings.HasPrefix(k, base+".") && !strings.HasPrefix(k, base+"[") {
				continue
			}
			for r := range a.roots(st, v, params, d+1) {
				out[r] = true
			}
		}
	}
	if strings.HasPrefix(t, "v:") {
		for k, v := range st.mem {
			if strings.HasPrefix(k, t+".") || k == t {
				if v != t {
					for r := range a.roots(st, v, params, d+1) {
						out[r] = true
					}
				}
			}
		}
		for o, rs := range a.origins {
			if t == o || strings.HasPrefix(t, o+".") || strings.HasPrefix(t, o+"!") || strings.HasPrefix(t, o+"[") {
				for r := range rs {
					out[r] = true
				}
			}
		}
	}
	return out
}

func coreRoot(t string) string {
	if i := strings.IndexAny(t, ".!"); i > 0 && !strings.HasPrefix(t, "&") && !strings.HasPrefix(t, "v:") {
		return t[:i]
	}
	return t
}

func emptySlice(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if arr, ok := deref(al.Type()).Underlying().(*types.Array); ok {
				return arr.Len() == 0
			}
		}
		if c, ok := x.High.(*ssa.Const); ok && c.Value != nil {
			return c.Int64() == 0
		}
	case *ssa.MakeSlice:
		c, ok := x.Len.(*ssa.Const)
		return ok && c.Int64() == 0
	}
	return false
}

func (a *c04) check(f *ssa.Function) {
	p, c := a.p, a.c
	a.origins = map[string]map[string]bool{}
	params := map[string]bool{}
	for _, q := range f.Params {
		if p.solverHolder(q.Type()) {
			params[q.Name()] = true
		}
	}
	for _, q := range f.FreeVars {
		if p.solverHolder(q.Type()) {
			params["free:"+q.Name()] = true
		}
	}
	w := NewWalker(p)
	w.MaxDepth = 6
	w.MaxSteps = 400000
	saves, dirts := 0, 0
	badSave := map[string]string{}
	pathPkg := func(g *ssa.Function) string { return shortPkg(pkgOf(g)) }
	w.Inline = func(g *ssa.Function, d int) bool {
		if !a.touch[g] || a.prim[g] || g == a.save || g == a.load || a.queued[g] {
			return false
		}
		switch pathPkg(g) {
		case "encoding", "formula", "normalform", "io", "parser", "bdd", "dnnf":
			return false
		}
		if isFunc(g, "sat", "CoreSolver.Solve") {
			return false
		}
		return g.Name() != "addCNFToSolver" && g.Name() != "addFormulaAsCNF" && g.Name() != "addWithProp"
	}
	dirty := func(st *PState, root string, why string) {
		dirts++
		if st.TS["d:"+root] == "" {
			st.TS["d:"+root] = why
		}
	}
	w.OnCall = func(w *Walker, fr *Frame, st *PState, ci ssa.CallInstruction, g *ssa.Function, args []string) []string {
		if g == a.save {
			saves++
			r := coreRoot(args[0])
			tok := "tok:" + fr.ID + "/" + fmt.Sprint(int(ci.Pos()))
			st.TS[tok] = r + "|" + st.TS["d:"+r]
			var stack []string
			for _, s := range strings.Split(st.TS["stack:"+r], ",") {
				if s != "" && s != tok {
					stack = append(stack, s)
				}
			}
			st.TS["stack:"+r] = strings.Join(append(stack, tok), ",")
			return []string{tok}
		}
		if g == a.load {
			r := coreRoot(args[0])
			tok := args[1]
			stack := strings.Split(st.TS["stack:"+r], ",")
			for i, s := range stack {
				if s == tok {
					st.TS["stack:"+r] = strings.Join(stack[:i+1], ",")
					rec := st.TS[tok]
					d := rec[strings.Index(rec, "|")+1:]
					if d == "" {
						delete(st.TS, "d:"+r)
					} else {
						st.TS["d:"+r] = d
					}
					return []string{"nil"}
				}
			}
			if !strings.HasPrefix(tok, "tok:") && params[r] {
				badSave[tok] = p.pos(ci.Pos())
				dirty(st, r, "an unknown state is loaded at "+p.pos(ci.Pos()))
			}
			return []string{"err:load"}
		}
		callee := p.Targets(ci.Common())
		touch := false
		for _, t := range callee {
			if a.touch[t] && !a.queued[t] && !isFunc(t, "sat", "CoreSolver.Solve") {
				touch = true
				if fr.active(t) || fr.Depth >= w.MaxDepth && !a.prim[t] {
					if a.prim[t] {
						continue
					}
					// recursion: its own balance is an obligation of its own
					if fr.active(t) {
						a.queue(t)
						touch = false
					}
				}
			}
		}
		// what solver may the result carry?
		if v, ok := ci.(*ssa.Call); ok && p.solverHolder(v.Type()) {
			rs := map[string]bool{}
			for i, t := range args {
				_ = i
				for r := range a.roots(st, t, params, 0) {
					rs[r] = true
				}
			}
			if len(rs) > 0 {
				a.origins[w.opaque(fr, v)] = rs
				for _, e := range extracts(v) {
					if p.solverHolder(e.Type()) {
						a.origins[w.opaque(fr, e)] = rs
					}
				}
			}
		}
		if !touch {
			return nil
		}
		name := calleeName(ci.Common())
		cargs := ci.Common().Args
		off := 0
		if ci.Common().IsInvoke() {
			off = 1
		}
		for i, t := range args {
			var ty types.Type
			if i < off {
				ty = ci.Common().Value.Type()
			} else {
				ty = cargs[i-off].Type()
			}
			if !p.solverHolder(ty) {
				continue
			}
			for r := range a.roots(st, t, params, 0) {
				// a call that only some implementations make dirty, e.g. a collector
				// building its result from the model, is judged by its own target
				if !a.mayDirty(callee) {
					continue
				}
				dirty(st, r, "changed by "+name+" at "+p.pos(ci.Pos()))
			}
		}
		return nil
	}
	w.OnInstr = func(w *Walker, fr *Frame, st *PState, in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		k := fieldKey(fa.X.Type(), fa.Field)
		if !solverModes[k] {
			return
		}
		root := coreRoot(w.Term(fr, fa.X))
		if !params[root] {
			return
		}
		t := w.Term(fr, s.Val)
		if emptySlice(s.Val) || t == "nil" || t == "false" {
			delete(st.TS, "a:"+k+":"+root)
		} else {
			st.TS["a:"+k+":"+root] = p.pos(s.Pos())
		}
	}
	type exit struct{ d, as, pos string }
	bad := map[string]exit{}
	n := 0
	w.Run(f, newPState(), func(fr *Frame, st *PState, r *ssa.Return, _ []string) {
		n++
		for k, v := range st.TS {
			if strings.HasPrefix(k, "d:") {
				e := bad[p.pos(r.Pos())]
				e.d, e.pos = v, p.pos(r.Pos())
				bad[p.pos(r.Pos())] = e
			}
			if strings.HasPrefix(k, "a:") {
				e := bad[p.pos(r.Pos())]
				e.as, e.pos = k[2:]+" set at "+v, p.pos(r.Pos())
				bad[p.pos(r.Pos())] = e
			}
		}
	})
	key, pos := rel(f), p.pos(f.Pos())
	if w.Overrun {
		c.Bad("query-restores", key, pos, "undecided: too many paths")
		return
	}
	var ks []string
	for k := range bad {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	d, as := "", ""
	for _, k := range ks {
		e := bad[k]
		if e.d != "" && d == "" {
			d = fmt.Sprintf("the solver is %s and not restored on the path to the return at %s", e.d, e.pos)
		}
		if e.as != "" && as == "" {
			as = fmt.Sprintf("%s is still set at the return at %s", e.as, e.pos)
		}
	}
	c.Cond(d == "", "query-restores", key, pos, d)
	c.Cond(as == "", "call-clears-assumptions", key, pos, as)
	if saves > 0 {
		msg := ""
		for t, at := range badSave {
			msg = "loads " + t + " at " + at + ", which this query did not save"
		}
		c.Cond(msg == "", "save-before-change", key, pos, msg)
	}
	stat, _ := c.Extra["paths"].(map[string]int)
	if stat == nil {
		stat = map[string]int{}
		c.Extra["paths"] = stat
	}
	stat[key+" exits"] = n
	stat[key+" changes"] = dirts
	stat[key+" steps"] = w.Steps
}

// mayDirty: a target changes the problem on a solver given to it other than
// by a query that restores it.
func (a *c04) mayDirty(gs []*ssa.Function) bool {
	for _, g := range gs {
		if a.prim[g] {
			return true
		}
		if !a.touch[g] {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var rec func(f *ssa.Function) bool
		rec = func(f *ssa.Function) bool {
			if a.prim[f] {
				return true
			}
			if seen[f] || a.queued[f] || !a.touch[f] {
				return false
			}
			seen[f] = true
			for _, s := range a.p.callee[f] {
				if rec(s.to) {
					return true
				}
			}
			return false
		}
		if a.queued[g] {
			continue
		}
		if rec(g) {
			return true
		}
	}
	return false
}

func (c *Ctx) maxsatRestores() {
	p := c.P
	f := p.Func("maxsat", "Solver.SolveWithHandler")
	if f == nil {
		c.Bad("maxsat-restores", "anchor", "", "maxsat.Solver.SolveWithHandler cannot be found")
		return
	}
	isM := func(g *ssa.Function, name string) bool {
		return g != nil && g.Name() == name && shortPkg(pkgOf(g)) == "maxsat"
	}
	w := NewWalker(p)
	w.Inline = func(g *ssa.Function, d int) bool {
		if shortPkg(pkgOf(g)) != "maxsat" || isM(g, "saveState") || isM(g, "loadState") || isM(g, "search") {
			return false
		}
		r := p.Reach(g)
		for h := range r {
			if isM(h, "search") || isM(h, "loadState") || isM(h, "saveState") {
				return true
			}
		}
		return false
	}
	ran := 0
	w.OnCall = func(w *Walker, fr *Frame, st *PState, ci ssa.CallInstruction, g *ssa.Function, args []string) []string {
		n := ""
		if g != nil {
			n = g.Name()
		} else if ci.Common().IsInvoke() {
			n = ci.Common().Method.Name()
		}
		switch n {
		case "saveState":
			tok := "tok:" + fr.ID + fmt.Sprint(int(ci.Pos()))
			st.TS["tok"] = tok
			return []string{tok}
		case "loadState":
			if len(args) > 1 && args[1] == st.TS["tok"] && st.TS["tok"] != "" {
				delete(st.TS, "ran")
			}
			return []string{"nil"}
		case "search":
			ran++
			if st.TS["tok"] == "" {
				st.TS["ran"] = p.pos(ci.Pos()) + " without a saved state"
			} else {
				st.TS["ran"] = p.pos(ci.Pos())
			}
		}
		return nil
	}
	// dynamic dispatch through the algorithm interface is not entered by the
	// walker: check the common body as its own root
	for _, g := range p.Funcs {
		if shortPkg(pkgOf(g)) != "maxsat" || g.Parent() != nil {
			continue
		}
		calls := false
		for _, s := range p.callee[g] {
			if s.to.Name() == "saveState" && s.to.Signature.Recv() != nil {
				calls = true
			}
		}
		if !calls || g.Name() == "SaveState" {
			continue
		}
		w2 := NewWalker(p)
		w2.Inline, w2.OnCall = w.Inline, w.OnCall
		// the search is a function argument or an interface call
		oc := w.OnCall
		w2.OnCall = func(w *Walker, fr *Frame, st *PState, ci ssa.CallInstruction, g2 *ssa.Function, args []string) []string {
			if g2 == nil && !ci.Common().IsInvoke() {
				if _, bi := ci.Common().Value.(*ssa.Builtin); !bi {
					ran++
					st.TS["ran"] = p.pos(ci.Pos())
					if st.TS["tok"] == "" {
						st.TS["ran"] += " without a saved state"
					}
					return nil
				}
			}
			return oc(w, fr, st, ci, g2, args)
		}
		b2 := ""
		w2.Run(g, newPState(), func(fr *Frame, st *PState, r *ssa.Return, _ []string) {
			if v := st.TS["ran"]; v != "" && b2 == "" {
				b2 = "the algorithm runs at " + v + " and the return at " + p.pos(r.Pos()) + " is reached without loading the state"
			}
		})
		c.Cond(b2 == "", "maxsat-restores", rel(g), p.pos(g.Pos()), b2)
	}
	c.Extra["maxsat_search_calls"] = ran
}
