package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C05"] = checkC05 }

// A stateSpec describes one solver whose state can be saved and loaded.
type stateSpec struct {
	pkg             string
	save, load      string // the functions with the real work
	pubLoad, newVar string
	mutators        []string          // public operations a load has to undo
	restored        []string          // fields loading must rewrite on every way to success
	guarded         map[string]string // field -> bool field: only needed while that one is set
	noReset         map[string]bool   // modified by the mutators, need no reset (reason in DESIGN.md)
	sizes           map[string]string // field -> field whose length is recorded for it
	values          map[string]string // scalar field -> field recorded for it
	zeroed          []string
	resultFlag      string // cached-result flag, cleared by every mutator and by loading
	flagMutators    []string
	caches          []string // caches that refer to dropped variables
	perVar          string   // field counting the variables
}

var stateSpecs = []stateSpec{
	{
		pkg: "sat", save: "CoreSolver.saveState", load: "CoreSolver.loadState", pubLoad: "Solver.LoadState", newVar: "CoreSolver.NewVar",
		mutators: []string{"Solver.Add", "Solver.AddProposition", "Solver.AddIncrementalCC", "Solver.Call"},
		restored: []string{"sat.CoreSolver.ok", "sat.CoreSolver.vars", "sat.CoreSolver.clauses", "sat.CoreSolver.learnts", "sat.CoreSolver.unitClauses",
			"sat.CoreSolver.watches", "sat.CoreSolver.watchesBin", "sat.CoreSolver.permDiff", "sat.CoreSolver.idx2name[]", "sat.CoreSolver.name2idx[]",
			"sat.CoreSolver.trail", "sat.CoreSolver.trailLim", "sat.CoreSolver.qhead", "sat.variable.assignment", "sat.variable.reason",
			"sat.CoreSolver.pgOriginalClauses", "sat.CoreSolver.pgProof", "sat.CoreSolver.validStates", "sat.lngheap.heap"},
		guarded: map[string]string{"sat.CoreSolver.pgOriginalClauses": "sat.Config.ProofGeneration", "sat.CoreSolver.pgProof": "sat.Config.ProofGeneration"},
		sizes: map[string]string{"sat.CoreSolver.vars": "sat.CoreSolver.vars", "sat.CoreSolver.clauses": "sat.CoreSolver.clauses", "sat.CoreSolver.unitClauses": "sat.CoreSolver.unitClauses",
			"sat.CoreSolver.watches": "sat.CoreSolver.vars", "sat.CoreSolver.watchesBin": "sat.CoreSolver.vars", "sat.CoreSolver.permDiff": "sat.CoreSolver.vars",
			"sat.CoreSolver.pgOriginalClauses": "sat.CoreSolver.pgOriginalClauses", "sat.CoreSolver.pgProof": "sat.CoreSolver.pgProof"},
		values: map[string]string{},
		caches: []string{"sat.pgOnSolver.variableCache[]"},
		perVar: "sat.CoreSolver.vars",
	},
	{
		pkg: "maxsat", save: "maxSatAlgorithm.saveState", load: "maxSatAlgorithm.loadState", pubLoad: "Solver.LoadState", newVar: "",
		mutators: []string{"Solver.AddHardFormula", "Solver.AddSoftFormula"},
		restored: []string{"maxsat.maxSatAlgorithm.hardClauses", "maxsat.maxSatAlgorithm.softClauses", "maxsat.maxSatAlgorithm.index2var[]", "maxsat.maxSatAlgorithm.var2index[]",
			"maxsat.maxSatAlgorithm.nbVars", "maxsat.maxSatAlgorithm.ubCost", "maxsat.maxSatAlgorithm.lbCost", "maxsat.maxSatAlgorithm.currentWeight", "maxsat.maxSatAlgorithm.orderWeights",
			"maxsat.maxSatAlgorithm.nbCores", "maxsat.maxSatAlgorithm.nbSymmetryClauses", "maxsat.maxSatAlgorithm.sumSizeCores", "maxsat.maxSatAlgorithm.nbSatisfiable",
			"maxsat.maxSatAlgorithm.model", "maxsat.softClause.relaxationVars", "maxsat.softClause.weight", "maxsat.softClause.assumptionVar", "maxsat.maxSatAlgorithm.validStates"},
		sizes: map[string]string{"maxsat.maxSatAlgorithm.hardClauses": "maxsat.maxSatAlgorithm.hardClauses", "maxsat.maxSatAlgorithm.softClauses": "maxsat.maxSatAlgorithm.softClauses"},
		values: map[string]string{"maxsat.maxSatAlgorithm.nbVars": "maxsat.maxSatAlgorithm.nbVars", "maxsat.maxSatAlgorithm.ubCost": "maxsat.maxSatAlgorithm.ubCost",
			"maxsat.maxSatAlgorithm.currentWeight": "maxsat.maxSatAlgorithm.currentWeight"},
		zeroed:       []string{"maxsat.maxSatAlgorithm.lbCost", "maxsat.maxSatAlgorithm.nbCores", "maxsat.maxSatAlgorithm.nbSymmetryClauses", "maxsat.maxSatAlgorithm.sumSizeCores", "maxsat.maxSatAlgorithm.nbSatisfiable"},
		resultFlag:   "maxsat.Solver.ok",
		flagMutators: []string{"Solver.AddHardFormula", "Solver.AddSoftFormula", "Solver.LoadState"},
		caches:       []string{"maxsat.pgOnSolver.variableCache[]"},
		perVar:       "maxsat.maxSatAlgorithm.nbVars",
	},
}

// harmless: fields the public mutators may change that loading does not (and
// need not) rewrite.
var stateHarmless = map[string]string{
	"seen": "all false between calls; longer than needed is harmless", "clausesLiterals": "statistics", "learntsLiterals": "statistics",
}

func checkC05(c *Ctx) {
	p := c.P
	c.Rule("load-restores", "loading a state rewrites every component of the solver that adding constraints or solving can change, on every path to a successful return", 34)
	c.Rule("load-covers-mutators", "every sequence, map or clause list that adding constraints can grow is among the components loading rewrites", 12)
	c.Rule("recorded-size", "a component is cut back to exactly the size that was recorded for it when the state was saved (times the number of entries a variable has in it)", 8)
	c.Rule("state-validity", "loading refuses with an error a state that is not among the valid ones, before it changes anything, and makes exactly the states saved later invalid", 6)
	c.Rule("no-stale-cache", "loading clears every cache that refers to variables or clauses of the dropped part, on every path to success", 2)
	c.Rule("cached-result", "every operation that changes the problem, and loading, invalidates the cached result before it returns; it is set only to the result of a completed search of that very problem", 4)
	if c.fixture {
		return
	}
	for _, s := range stateSpecs {
		checkStateSpec(c, p, s)
	}
}

// mustWriter decides whether a field is written on every path of a function
// to a (successful) return.
type mustWriter struct {
	p     *Program
	key   string
	guard string
	grow  bool // advancing the old value counts as a write
	memo  map[*ssa.Function]int
}

func (w *mustWriter) writes(in ssa.Instruction) bool {
	p := w.p
	match := func(k string, e bool) bool {
		if k == "" {
			return false
		}
		if e {
			return k+"[]" == w.key
		}
		return k == w.key || k+"[]" == w.key // replacing the container replaces its elements
	}
	switch x := in.(type) {
	case *ssa.Store:
		if match(addrFieldKey(x.Addr, 0)) && (w.grow || !selfUpdate(x)) {
			return true
		}
	case *ssa.MapUpdate:
		k, _ := valueFieldKey(x.Map, 0)
		return match(k, true)
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if _, isGo := in.(*ssa.Go); isGo {
		return false
	}
	com := ci.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if b.Name() == "delete" || b.Name() == "clear" {
			k, _ := valueFieldKey(com.Args[0], 0)
			return match(k, true)
		}
		return false
	}
	for _, a := range com.Args {
		if fa, ok := a.(*ssa.FieldAddr); ok && structOf(deref(fa.Type())) == nil {
			if match(fieldKey(fa.X.Type(), fa.Field), false) {
				for _, t := range p.Targets(com) {
					if writesParam(t) {
						return true
					}
				}
			}
		}
	}
	ts := p.Targets(com)
	if len(ts) == 0 {
		return false
	}
	for _, t := range ts {
		if !w.must(t) {
			return false
		}
	}
	return true
}

// selfUpdate: the store only advances or grows the old value (x++, x =
// append(x, ...)), which restores nothing.
func selfUpdate(st *ssa.Store) bool {
	k, e := addrFieldKey(st.Addr, 0)
	same := func(v ssa.Value) bool {
		k2, e2 := valueFieldKey(v, 0)
		return k2 == k && e2 == e
	}
	switch x := st.Val.(type) {
	case *ssa.BinOp:
		return same(x.X) || same(x.Y)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return same(x.Call.Args[0])
		}
	}
	return false
}

// writesParam: the function stores through one of its pointer parameters.
func writesParam(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if _, ok := st.Addr.(*ssa.Parameter); ok {
					return true
				}
			}
		}
	}
	return false
}

func (w *mustWriter) must(f *ssa.Function) bool {
	switch w.memo[f] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	if len(f.Blocks) == 0 {
		return false
	}
	if !w.p.mods().Of(f)[w.key] && !w.p.mods().Of(f)[strings.TrimSuffix(w.key, "[]")] {
		w.memo[f] = 2
		return false
	}
	w.memo[f] = 3
	ok := w.path(f) == nil
	w.memo[f] = 2
	if ok {
		w.memo[f] = 1
	}
	return ok
}

// path returns a path from the entry to a successful return without a write.
func (w *mustWriter) path(f *ssa.Function) []*ssa.BasicBlock {
	hit := map[*ssa.BasicBlock]bool{}
	loops := naturalLoops(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if w.writes(in) {
				hit[b] = true
			}
		}
	}
	// a loop whose every iteration writes has written when it is left (it
	// runs once for every entry that has to be rewritten)
	cond := strings.HasSuffix(w.key, "[]") || strings.HasSuffix(w.key, "lngheap.heap")
	for changed := true; changed; {
		changed = false
		for h, body := range loops {
			if hit[h] {
				continue
			}
			any, all := false, true
			for b := range body {
				any = any || hit[b]
			}
			if !any {
				continue
			}
			if !cond {
				for _, l := range h.Preds {
					if body[l] && !hit[l] && reachWithin(h, l, body, hit) {
						all = false
					}
				}
			}
			if all {
				hit[h] = true
				changed = true
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock) []*ssa.BasicBlock
	dfs = func(b *ssa.BasicBlock) []*ssa.BasicBlock {
		if seen[b] || hit[b] {
			return nil
		}
		seen[b] = true
		last := b.Instrs[len(b.Instrs)-1]
		if r, ok := last.(*ssa.Return); ok {
			if !returnsError(r) {
				return []*ssa.BasicBlock{b}
			}
			return nil
		}
		for i, s := range b.Succs {
			if iff, ok := last.(*ssa.If); ok {
				cond, neg := iff.Cond, false
				for {
					u, ok := cond.(*ssa.UnOp)
					if !ok || u.Op != token.NOT {
						break
					}
					cond, neg = u.X, !neg
				}
				if w.guard != "" {
					if k, _ := valueFieldKey(cond, 0); k == w.guard && (i == 1) != neg {
						continue // the guard is off
					}
				}
				// an optional component that is nil has nothing to restore
				if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && isNilConst(bo.Y) {
					if k, _ := valueFieldKey(bo.X, 0); k != "" {
						nilEdge := 0
						if (bo.Op == token.NEQ) != neg {
							nilEdge = 1
						}
						if i == nilEdge {
							continue
						}
					}
				}
				// the path on which a called function failed
				if errEdge(cond, neg) == i {
					continue
				}
			}
			if r := dfs(s); r != nil {
				return append([]*ssa.BasicBlock{b}, r...)
			}
		}
		return nil
	}
	return dfs(f.Blocks[0])
}

// reachWithin: the latch can be reached from the header inside the loop
// without a write.
func reachWithin(h, latch *ssa.BasicBlock, body, hit map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		if b == latch {
			return true
		}
		if seen[b] || !body[b] || hit[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if s != h && dfs(s) {
				return true
			}
		}
		return false
	}
	return dfs(h)
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.IsNil()
}

// errEdge: the successor taken when an error value is not nil; -1 if the
// condition is not about an error.
func errEdge(cond ssa.Value, neg bool) int {
	bo, ok := cond.(*ssa.BinOp)
	if !ok || !isNilConst(bo.Y) || bo.X.Type().String() != "error" {
		return -1
	}
	if (bo.Op == token.NEQ) != neg {
		return 0
	}
	return 1
}

// returnsError: the return certainly reports an error (a value that is not
// the nil constant).
func returnsError(r *ssa.Return) bool {
	for _, v := range r.Results {
		if v.Type().String() == "error" {
			return !isNilConst(v) && !mayBeNilErr(v, r.Block())
		}
	}
	return false
}

func mayBeNilErr(v ssa.Value, at *ssa.BasicBlock) bool {
	if guardedNonNil(v, at) {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		// a result kept in a variable (functions with deferred calls)
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			var last *ssa.Store
			for _, in := range at.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == a {
					last = st
				}
			}
			if last != nil {
				return mayBeNilErr(last.Val, at)
			}
		}
		return true
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for i, e := range x.Edges {
			if i < len(x.Block().Preds) && mayBeNilErr(e, x.Block().Preds[i]) {
				return true
			}
		}
		return false
	case *ssa.Call:
		if g := staticCallee(&x.Call); g != nil && shortPkg(pkgOf(g)) == "errorx" {
			return false
		}
		if g := staticCallee(&x.Call); g != nil && pkgOf(g) != nil {
			switch pkgOf(g).Path() {
			case "errors", "fmt":
				return false
			}
		}
		return true
	case *ssa.MakeInterface:
		return false
	}
	return true
}

// guardedNonNil: the block is reached only where v != nil was found.
func guardedNonNil(v ssa.Value, at *ssa.BasicBlock) bool {
	for b := at; b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && bo.X == v && isNilConst(bo.Y) {
				if e := errEdge(bo, false); e >= 0 && d.Succs[e] == b && len(b.Preds) == 1 {
					return true
				}
			}
		}
	}
	return false
}

// naturalLoops: header -> blocks of the loop.
func naturalLoops(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := out[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				out[h] = body
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return out
}

func fieldExists(p *Program, key string) bool {
	parts := strings.Split(strings.TrimSuffix(key, "[]"), ".")
	if len(parts) != 3 {
		return false
	}
	t := p.Type(parts[0], parts[1])
	if t == nil {
		return false
	}
	st := structOf(t)
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == parts[2] {
			return true
		}
	}
	return false
}

func fieldType(p *Program, key string) types.Type {
	parts := strings.Split(strings.TrimSuffix(key, "[]"), ".")
	if len(parts) != 3 {
		return nil
	}
	t := p.Type(parts[0], parts[1])
	if t == nil {
		return nil
	}
	st := structOf(t)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == parts[2] {
			return st.Field(i).Type()
		}
	}
	return nil
}

func checkStateSpec(c *Ctx, p *Program, s stateSpec) {
	load, save, pub := p.Func(s.pkg, s.load), p.Func(s.pkg, s.save), p.Func(s.pkg, s.pubLoad)
	if pub == nil {
		return
	}
	// resolve the worker functions even when they were renamed: the only
	// functions the public ones call that touch validStates
	if load == nil || save == nil {
		return
	}
	at := func(f *ssa.Function) string { return p.pos(f.Pos()) }
	// restores
	for _, k := range s.restored {
		if !fieldExists(p, k) {
			continue
		}
		w := &mustWriter{p: p, key: k, guard: s.guarded[k], memo: map[*ssa.Function]int{}}
		path := w.path(pub)
		d := ""
		if path != nil {
			// find where inside the worker
			w2 := &mustWriter{p: p, key: k, guard: s.guarded[k], memo: map[*ssa.Function]int{}}
			pp := w2.path(load)
			d = fmt.Sprintf("%s can return successfully without rewriting %s, which %s change; path: %s", rel(load), k, strings.Join(s.mutators, ", "), blockPath(p, pp))
		}
		c.Cond(path == nil, "load-restores", rel(pub)+" "+k, at(load), d)
	}
	// coverage: containers that the mutators grow
	grow := map[string]string{}
	for _, mname := range s.mutators {
		m := p.Func(s.pkg, mname)
		if m == nil {
			continue
		}
		for g := range p.Reach(m) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						// F = append(F, ...)
						fa, ok := x.Addr.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						k := fieldKey(fa.X.Type(), fa.Field)
						if call, ok := x.Val.(*ssa.Call); ok {
							if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
								if k2, _ := valueFieldKey(call.Call.Args[0], 0); k2 == k {
									grow[k] = rel(g)
								}
							}
						}
					case *ssa.MapUpdate:
						if k, _ := valueFieldKey(x.Map, 0); k != "" {
							grow[k+"[]"] = rel(g)
						}
					}
				}
			}
		}
	}
	own := map[string]bool{"CoreSolver": s.pkg == "sat", "maxSatAlgorithm": s.pkg == "maxsat", "pgOnSolver": true, "Solver": true}
	mods := p.mods().Of(pub)
	var ks []string
	for k := range grow {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		parts := strings.Split(strings.TrimSuffix(k, "[]"), ".")
		if len(parts) != 3 || parts[0] != s.pkg || !own[parts[1]] {
			continue
		}
		if stateHarmless[parts[2]] != "" || callScratch(p, s, k) {
			continue
		}
		ok := mods[k] || mods[strings.TrimSuffix(k, "[]")]
		c.Cond(ok, "load-covers-mutators", rel(pub)+" "+k, at(pub),
			fmt.Sprintf("%s grows %s, and nothing %s does ever cuts it back: what was added after the state was saved stays", grow[k], k, rel(pub)))
	}
	// recorded sizes
	sl := newStateSlots(p, save, load)
	var sk []string
	for k := range s.sizes {
		sk = append(sk, k)
	}
	sort.Strings(sk)
	for _, k := range sk {
		src := s.sizes[k]
		factor := 1
		if s.newVar != "" && src == s.perVar && k != src {
			factor = appendsPerCall(p.Func(s.pkg, s.newVar), k)
		}
		for _, cut := range sl.cuts(k) {
			slot, coef, off, ok := sl.eval(cut.size, 0)
			if !ok {
				continue
			}
			rec := sl.recorded(slot)
			if rec == nil {
				c.Bad("recorded-size", rel(load)+" "+k, cut.pos, fmt.Sprintf("%s is cut to slot %s of the state, which %s never records", k, slot, rel(save)))
				continue
			}
			for _, r := range rec {
				want := "len(" + src + ")"
				got := r
				good := got == want && coef == factor && off == 0
				c.Cond(good, "recorded-size", rel(load)+" "+k, cut.pos, fmt.Sprintf("%s is cut to %d*%s%+d where the state recorded %s there; it must be %d*%s", k, coef, slot, off, got, factor, want))
			}
		}
	}
	var vk []string
	for k := range s.values {
		vk = append(vk, k)
	}
	sort.Strings(vk)
	for _, k := range vk {
		for _, st := range sl.stores(k) {
			slot, coef, off, ok := sl.eval(st.size, 0)
			if !ok {
				if kk, isC := st.size.(*ssa.Const); isC {
					c.Bad("recorded-size", rel(load)+" "+k, st.pos, fmt.Sprintf("%s is set to the constant %s instead of the value recorded in the state", k, kk))
				}
				continue
			}
			for _, r := range sl.recorded(slot) {
				good := r == s.values[k] && coef == 1 && off == 0
				c.Cond(good, "recorded-size", rel(load)+" "+k, st.pos, fmt.Sprintf("%s is set to %d*%s%+d where the state recorded %s; it must be %s", k, coef, slot, off, r, s.values[k]))
			}
			if len(sl.recorded(slot)) == 0 {
				c.Bad("recorded-size", rel(load)+" "+k, st.pos, fmt.Sprintf("%s is set from slot %s of the state, which %s never records", k, slot, rel(save)))
			}
		}
	}
	for _, k := range s.zeroed {
		for _, st := range sl.stores(k) {
			kk, ok := st.size.(*ssa.Const)
			if ok {
				c.Cond(kk.Value != nil && constant.Sign(kk.Value) == 0, "recorded-size", rel(load)+" "+k, st.pos, fmt.Sprintf("%s is set to %s instead of its initial value", k, kk))
			}
		}
	}
	checkOkFlag(c, p, s, sl)
	checkStateValidity(c, p, s, save, load, pub, sl)
	for _, k := range s.caches {
		if !fieldExists(p, k) {
			continue
		}
		// every object of the caching type the public solver holds
		holder := strings.Split(k, ".")[1]
		t := structOf(p.Type(s.pkg, "Solver"))
		for i := 0; t != nil && i < t.NumFields(); i++ {
			n, ok := types.Unalias(deref(t.Field(i).Type())).(*types.Named)
			if !ok || n.Obj().Name() != holder {
				continue
			}
			fk := s.pkg + ".Solver." + t.Field(i).Name()
			w := &recvMust{p: p, recvField: fk, key: k}
			path := w.path(pub)
			c.Cond(path == nil, "no-stale-cache", rel(pub)+" "+fk, at(pub),
				fmt.Sprintf("%s can return successfully without clearing the cache of %s: its entries refer to variables that no longer exist; path: %s", rel(pub), fk, blockPath(p, path)))
		}
	}
	if s.resultFlag != "" {
		checkResultFlag(c, p, s)
	}
}

// callScratch: fields only a query uses as scratch space, reset by the query
// itself at its start.
func callScratch(p *Program, s stateSpec, k string) bool {
	if s.pkg != "sat" {
		return false
	}
	for _, m := range []string{"Solver.Add", "Solver.AddIncrementalCC"} {
		f := p.Func(s.pkg, m)
		if f == nil {
			continue
		}
		mm := p.mods().Of(f)
		if mm[k] || mm[strings.TrimSuffix(k, "[]")] {
			return false
		}
	}
	// not changed by adding: a query's own field, unless it is the store of learnt clauses
	return !strings.HasSuffix(k, ".learnts")
}

func blockPath(p *Program, path []*ssa.BasicBlock) string {
	var ls []string
	for _, b := range path {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				pp := p.pos(in.Pos())
				if len(ls) == 0 || ls[len(ls)-1] != pp {
					ls = append(ls, pp)
				}
				break
			}
		}
	}
	if len(ls) > 8 {
		ls = append(ls[:4:4], append([]string{"..."}, ls[len(ls)-3:]...)...)
	}
	return strings.Join(ls, " -> ")
}

// recvMust: like mustWriter, but only calls on a particular field of the
// solver count.
type recvMust struct {
	p         *Program
	recvField string
	key       string
}

func (w *recvMust) path(f *ssa.Function) []*ssa.BasicBlock {
	return w.pathD(f, 0)
}

func (w *recvMust) pathD(f *ssa.Function, d int) []*ssa.BasicBlock {
	hit := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := ci.Common()
			for _, a := range com.Args {
				k, _ := valueFieldKey(a, 0)
				if k == w.recvField {
					for _, t := range w.p.Targets(com) {
						mw := &mustWriter{p: w.p, key: w.key, memo: map[*ssa.Function]int{}}
						if mw.must(t) {
							hit[b] = true
						}
					}
				}
			}
			if bi, ok := com.Value.(*ssa.Builtin); ok && bi.Name() == "clear" {
				// clear(s.pg.variableCache)
				if u, ok := com.Args[0].(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldKey(fa.X.Type(), fa.Field)+"[]" == w.key {
						if k, _ := valueFieldKey(fa.X, 0); k == w.recvField {
							hit[b] = true
						}
					}
				}
			}
			if d < 3 && !hit[b] {
				ts := w.p.Targets(com)
				all := len(ts) > 0
				for _, t := range ts {
					if !w.p.mods().Of(t)[w.key] || !touches(w.p, t, w.recvField) || w.pathD(t, d+1) != nil {
						all = false
					}
				}
				if all {
					hit[b] = true
				}
			}
			if st, ok := in.(*ssa.Store); ok {
				_ = st
			}
		}
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if fieldKey(fa.X.Type(), fa.Field) == w.recvField {
						hit[b] = true // replaced altogether
					}
					if fieldKey(fa.X.Type(), fa.Field)+"[]" == w.key {
						if k, _ := valueFieldKey(fa.X, 0); k == w.recvField {
							hit[b] = true
						}
					}
				}
			}
		}
	}
	mw := &mustWriter{p: w.p, key: w.key, memo: map[*ssa.Function]int{}}
	return pathAvoiding(f, hit, mw)
}

func touches(p *Program, f *ssa.Function, key string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok && fieldKey(fa.X.Type(), fa.Field) == key {
				return true
			}
			if fa, ok := in.(*ssa.Field); ok && fieldKey(fa.X.Type(), fa.Field) == key {
				return true
			}
		}
	}
	return false
}

// pathAvoiding is mustWriter.path with the blocks given.
func pathAvoiding(f *ssa.Function, hit map[*ssa.BasicBlock]bool, w *mustWriter) []*ssa.BasicBlock {
	loops := naturalLoops(f)
	for b := range hit {
		for h, body := range loops {
			if body[b] {
				hit[h] = true
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock) []*ssa.BasicBlock
	dfs = func(b *ssa.BasicBlock) []*ssa.BasicBlock {
		if seen[b] || hit[b] {
			return nil
		}
		seen[b] = true
		last := b.Instrs[len(b.Instrs)-1]
		if r, ok := last.(*ssa.Return); ok {
			if !returnsError(r) {
				return []*ssa.BasicBlock{b}
			}
			return nil
		}
		for i, s := range b.Succs {
			if iff, ok := last.(*ssa.If); ok {
				if errEdge(iff.Cond, false) == i {
					continue
				}
				if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && isNilConst(bo.Y) {
					if k, _ := valueFieldKey(bo.X, 0); k != "" {
						nilEdge := 0
						if bo.Op == token.NEQ {
							nilEdge = 1
						}
						if i == nilEdge {
							continue
						}
					}
				}
			}
			if r := dfs(s); r != nil {
				return append([]*ssa.BasicBlock{b}, r...)
			}
		}
		return nil
	}
	return dfs(f.Blocks[0])
}

// appendsPerCall: how many entries one call appends to the field.
func appendsPerCall(f *ssa.Function, key string) int {
	n := 0
	if f == nil {
		return 1
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			bi, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "append" {
				continue
			}
			base := c.Call.Args[0]
			for {
				if c2, ok := base.(*ssa.Call); ok {
					if b2, ok := c2.Call.Value.(*ssa.Builtin); ok && b2.Name() == "append" {
						base = c2.Call.Args[0]
						continue
					}
				}
				break
			}
			if k, _ := valueFieldKey(base, 0); k != key {
				continue
			}
			if sl, ok := c.Call.Args[1].(*ssa.Slice); ok {
				if at, ok := deref(sl.X.Type()).Underlying().(*types.Array); ok {
					n += int(at.Len())
				}
			}
		}
	}
	if n == 0 {
		return 1
	}
	return n
}

type sizedAt struct {
	size ssa.Value
	pos  string
	in   ssa.Instruction
}

type stateSlots struct {
	p          *Program
	save, load *ssa.Function
	saveFns    []*ssa.Function
	loadFns    []*ssa.Function
	rec        map[string][]string
}

func newStateSlots(p *Program, save, load *ssa.Function) *stateSlots {
	s := &stateSlots{p: p, save: save, load: load, rec: map[string][]string{}}
	fns := func(root *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		for f := range p.Reach(root) {
			if pkgOf(f) == pkgOf(root) {
				out = append(out, f)
			}
		}
		sort.Slice(out, func(i, j int) bool { return rel(out[i]) < rel(out[j]) })
		return out
	}
	s.saveFns, s.loadFns = fns(save), fns(load)
	for _, f := range s.saveFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				slot := s.slotOf(st.Addr)
				if slot == "" {
					continue
				}
				if d := s.describe(st.Val); d != "" {
					s.rec[slot] = append(s.rec[slot], d)
				}
			}
		}
	}
	return s
}

func (s *stateSlots) recorded(slot string) []string { return s.rec[slot] }

// describe a recorded value: len(F), F, or a constant.
func (s *stateSlots) describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Convert:
		return s.describe(x.X)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if k, e := valueFieldKey(x.Call.Args[0], 0); k != "" && !e {
				return "len(" + k + ")"
			}
		}
		if g := staticCallee(&x.Call); g != nil && len(g.Blocks) == 1 {
			if r, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				return s.describe(r.Results[0])
			}
		}
		return "?" + x.Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if k, e := addrFieldKey(x.X, 0); k != "" && !e {
				return k
			}
		}
		return "?"
	case *ssa.Const:
		if x.Value != nil {
			return "const " + x.Value.String()
		}
		return ""
	case *ssa.BinOp:
		a, b := s.describe(x.X), s.describe(x.Y)
		return "(" + a + x.Op.String() + b + ")"
	}
	return ""
}

// slotOf names the place in the saved state an address denotes.
func (s *stateSlots) slotOf(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.IndexAddr:
		k, ok := x.Index.(*ssa.Const)
		if !ok {
			return ""
		}
		if el := x.X.Type().String(); el != "[]int" && el != "*[6]int" && !strings.HasSuffix(el, "]int") {
			return ""
		}
		if fk, _ := valueFieldKey(x.X, 0); fk != "" && !strings.Contains(fk, "SolverState.") {
			return ""
		}
		return "state[" + k.Value.String() + "]"
	case *ssa.FieldAddr:
		k := fieldKey(x.X.Type(), x.Field)
		if strings.Contains(k, ".SolverState.") {
			return k
		}
	}
	return ""
}

// eval a size expression of loading to coef*slot+off.
func (s *stateSlots) eval(v ssa.Value, d int) (slot string, coef, off int, ok bool) {
	if d > 10 {
		return
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if sl := s.slotOf(x.X); sl != "" {
				return sl, 1, 0, true
			}
		}
	case *ssa.Field:
		k := fieldKey(x.X.Type(), x.Field)
		if strings.Contains(k, ".SolverState.") {
			return k, 1, 0, true
		}
	case *ssa.Convert:
		return s.eval(x.X, d+1)
	case *ssa.ChangeType:
		return s.eval(x.X, d+1)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "min") {
			for _, a := range x.Call.Args {
				if sl, co, of, ok := s.eval(a, d+1); ok {
					return sl, co, of, true
				}
			}
		}
		if g := staticCallee(&x.Call); g != nil && inModule(g) && len(g.Blocks) > 0 {
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					if sl, co, of, ok := s.eval(r.Results[0], d+1); ok {
						return sl, co, of, true
					}
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if sl, co, of, ok := s.eval(e, d+1); ok {
				return sl, co, of, true
			}
		}
	case *ssa.BinOp:
		kx, cx := intConst(x.X)
		ky, cy := intConst(x.Y)
		switch x.Op {
		case token.MUL:
			if cy {
				if sl, co, of, ok := s.eval(x.X, d+1); ok {
					return sl, co * ky, of * ky, true
				}
			}
			if cx {
				if sl, co, of, ok := s.eval(x.Y, d+1); ok {
					return sl, co * kx, of * kx, true
				}
			}
		case token.SHL:
			if cy {
				if sl, co, of, ok := s.eval(x.X, d+1); ok {
					return sl, co << ky, of << ky, true
				}
			}
		case token.ADD, token.SUB:
			sg := 1
			if x.Op == token.SUB {
				sg = -1
			}
			if cy {
				if sl, co, of, ok := s.eval(x.X, d+1); ok {
					return sl, co, of + sg*ky, true
				}
			}
			if cx && sg == 1 {
				if sl, co, of, ok := s.eval(x.Y, d+1); ok {
					return sl, co, of + kx, true
				}
			}
			s1, c1, o1, ok1 := s.eval(x.X, d+1)
			s2, c2, o2, ok2 := s.eval(x.Y, d+1)
			if ok1 && ok2 && s1 == s2 {
				return s1, c1 + sg*c2, o1 + sg*o2, true
			}
		}
	case *ssa.Parameter:
		return s.param(x, d)
	}
	return
}

func (s *stateSlots) param(x *ssa.Parameter, d int) (slot string, coef, off int, ok bool) {
	idx := -1
	for i, q := range x.Parent().Params {
		if q == x {
			idx = i
		}
	}
	var vals [][3]any
	for _, f := range s.loadFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isC := in.(ssa.CallInstruction)
				if !isC || staticCallee(ci.Common()) != x.Parent() || idx >= len(ci.Common().Args) {
					continue
				}
				sl, co, of, k := s.eval(ci.Common().Args[idx], d+1)
				if !k {
					return "", 0, 0, false
				}
				vals = append(vals, [3]any{sl, co, of})
			}
		}
	}
	if len(vals) == 0 {
		return
	}
	for _, v := range vals[1:] {
		if v != vals[0] {
			return "", 0, 0, false
		}
	}
	return vals[0][0].(string), vals[0][1].(int), vals[0][2].(int), true
}

func intConst(v ssa.Value) (int, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0, false
	}
	n, _ := constant.Int64Val(k.Value)
	return int(n), true
}

// cuts: places that shorten the field while loading.
func (s *stateSlots) cuts(key string) []sizedAt {
	var out []sizedAt
	for _, f := range s.loadFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if k, e := addrFieldKey(x.Addr, 0); k == key && !e {
						if sl, ok := x.Val.(*ssa.Slice); ok && sl.High != nil {
							if k2, _ := valueFieldKey(sl.X, 0); k2 == key {
								out = append(out, sizedAt{sl.High, s.p.pos(x.Pos()), in})
							}
						}
					}
				case *ssa.Call:
					// helper(&F, n)
					for i, a := range x.Call.Args {
						fa, ok := a.(*ssa.FieldAddr)
						if !ok || fieldKey(fa.X.Type(), fa.Field) != key || i+1 >= len(x.Call.Args) {
							continue
						}
						g := staticCallee(&x.Call)
						if g == nil || !writesParam(canonOf(g)) {
							continue
						}
						if t, ok := x.Call.Args[i+1].Type().Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 {
							out = append(out, sizedAt{x.Call.Args[i+1], s.p.pos(x.Pos()), in})
						}
					}
				}
			}
		}
	}
	return out
}

func canonOf(g *ssa.Function) *ssa.Function {
	if len(g.Blocks) == 0 && g.Origin() != nil {
		return g.Origin()
	}
	return g
}

func (s *stateSlots) stores(key string) []sizedAt {
	var out []sizedAt
	for _, f := range s.loadFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Store); ok {
					if k, e := addrFieldKey(x.Addr, 0); k == key && !e {
						out = append(out, sizedAt{x.Val, s.p.pos(x.Pos()), in})
					}
				}
			}
		}
	}
	return out
}

// checkStateValidity: unknown states are refused before anything changes,
// later ones become invalid, and every state gets its own number.
func checkStateValidity(c *Ctx, p *Program, s stateSpec, save, load, pub *ssa.Function, sl *stateSlots) {
	rule := "state-validity"
	valid := s.pkg + "." + strings.Split(s.load, ".")[0] + ".validStates"
	isID := func(v ssa.Value) bool {
		k, e := valueFieldKey(v, 0)
		return !e && strings.HasSuffix(k, ".SolverState.id")
	}
	isElem := func(v ssa.Value) bool {
		k, e := valueFieldKey(v, 0)
		return e && k == valid
	}
	// (a) no success when no valid state matches
	matches := 0
	var matchIdx []ssa.Value
	idParam := map[ssa.Value]bool{}
	for _, f := range sl.loadFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := staticCallee(ci.Common()); g != nil && len(g.Params) == len(ci.Common().Args) {
						for i, a := range ci.Common().Args {
							if isID(a) {
								idParam[g.Params[i]] = true
							}
							if k, e := valueFieldKey(a, 0); k == valid && !e {
								idParam[g.Params[i]] = true
							}
						}
					}
				}
			}
		}
	}
	elemOf := func(v ssa.Value) (ssa.Value, bool) {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return nil, false
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return nil, false
		}
		if isElem(v) || idParam[ia.X] {
			return ia.Index, true
		}
		return nil, false
	}
	fix := func(v ssa.Value) (cval, bool) {
		switch x := v.(type) {
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				return cval{}, false
			}
			for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if idx, ok := elemOf(pr[0]); ok && (isID(pr[1]) || idParam[pr[1]]) {
					matches++
					matchIdx = append(matchIdx, idx)
					return cval{v: constant.MakeBool(x.Op == token.NEQ)}, true
				}
			}
		case *ssa.Call:
			g := staticCallee(&x.Call)
			if g == nil {
				return cval{}, false
			}
			if o := g.Origin(); o != nil {
				g = o
			}
			if pkgOf(g) == nil || pkgOf(g).Path() != "slices" || len(x.Call.Args) < 2 {
				return cval{}, false
			}
			if k, _ := valueFieldKey(x.Call.Args[0], 0); k != valid {
				return cval{}, false
			}
			matches++
			switch g.Name() {
			case "Index":
				matchIdx = append(matchIdx, x)
				return cval{v: constant.MakeInt64(-1)}, true
			case "Contains":
				return cval{v: constant.MakeBool(false)}, true
			}
		}
		return cval{}, false
	}
	res := (&sccp{p: p, Fix: fix}).Run(load, nil)
	if matches == 0 {
		c.Bad(rule, rel(load)+" unknown-state", p.pos(load.Pos()), fmt.Sprintf("%s never compares the number of the state with the valid ones", rel(load)))
	} else {
		bad := ""
		for _, r := range res.Returns {
			if !returnsError(r) {
				bad = p.pos(r.Pos())
			}
		}
		c.Cond(bad == "", rule, rel(load)+" unknown-state", p.pos(load.Pos()), fmt.Sprintf("%s can return successfully (%s) although no valid state has the given number", rel(load), bad))
		// (b) nothing is changed on the way to the refusal
		w := ""
		for _, b := range load.Blocks {
			if !res.Reach[b] {
				continue
			}
			for _, in := range b.Instrs {
				if m := p.instrMods(in, s.pkg); m != "" {
					w = m + " at " + p.pos(in.Pos())
				}
			}
		}
		c.Cond(w == "", rule, rel(load)+" refusal-changes-nothing", p.pos(load.Pos()), fmt.Sprintf("%s changes %s although it goes on to refuse the state", rel(load), w))
	}
	// (c) later states become invalid, the loaded one stays valid
	for _, cut := range sl.cuts(valid) {
		base, off := affineBase(cut.size)
		same := false
		for _, m := range matchIdx {
			if flowsFrom(base, m, 0) {
				same = true
			}
		}
		if !same {
			continue
		}
		c.Cond(off == 1, rule, rel(load)+" later-states", cut.pos, fmt.Sprintf("the list of valid states is cut at the loaded state%+d: it must keep exactly the states up to and including the loaded one (+1)", off))
	}
	// (d) every saved state gets a number of its own and is listed as valid
	stid := s.pkg + "." + strings.Split(s.save, ".")[0] + ".stateId"
	for _, k := range []string{stid, valid} {
		w := &mustWriter{p: p, key: k, grow: true, memo: map[*ssa.Function]int{}}
		path := w.path(save)
		c.Cond(path == nil, rule, rel(save)+" "+k, p.pos(save.Pos()), fmt.Sprintf("%s can return a state without updating %s; path: %s", rel(save), k, blockPath(p, path)))
	}
	var listed, given []ssa.Value
	for _, f := range sl.saveFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && strings.HasSuffix(fieldKey(fa.X.Type(), fa.Field), ".SolverState.id") {
						given = append(given, x.Val)
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						if k, _ := valueFieldKey(x.Call.Args[0], 0); k == valid {
							listed = append(listed, variadicElems(x.Call.Args[1])...)
						}
					}
				}
			}
		}
	}
	for _, l := range listed {
		for _, g := range given {
			if l.Parent() != g.Parent() {
				continue
			}
			bl, ol := affineBase(l)
			bg, og := affineBase(g)
			differ := bl == bg && ol != og
			c.Cond(!differ, rule, rel(save)+" number-listed", p.pos(save.Pos()), fmt.Sprintf("%s lists a number as valid that is not the number of the state it returns", rel(save)))
		}
	}
	if s.pkg == "sat" {
		checkLearnts(c, p, s, load, sl)
	}
}

// variadicElems: the values stored in the backing array of a variadic slice.
func variadicElems(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

func isConstV(v ssa.Value) bool {
	_, ok := v.(*ssa.Const)
	return ok
}

// checkOkFlag: what saving records for the flag is read back as the same
// value by loading (both functions evaluated by constant propagation).
func checkOkFlag(c *Ctx, p *Program, s stateSpec, sl *stateSlots) {
	key := s.pkg + "." + strings.Split(s.load, ".")[0] + ".ok"
	if !fieldExists(p, key) {
		return
	}
	isOk := func(v ssa.Value) bool {
		k, e := valueFieldKey(v, 0)
		return k == key && !e && isBoolT(v.Type())
	}
	for _, val := range []bool{true, false} {
		slots := map[string]cval{}
		fix := func(v ssa.Value) (cval, bool) {
			if isOk(v) {
				return cval{v: constant.MakeBool(val)}, true
			}
			return cval{}, false
		}
		for _, f := range sl.saveFns {
			res := (&sccp{p: p, Fix: fix}).Run(f, nil)
			for _, b := range f.Blocks {
				if !res.Reach[b] {
					continue
				}
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if slot := sl.slotOf(st.Addr); slot != "" {
							var cv cval
							if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil {
								cv = cval{v: k.Value}
							} else {
								cv = res.Val[st.Val]
							}
							slots[slot] = cv
						}
					}
				}
			}
		}
		for _, f := range sl.loadFns {
			if rel(f) != rel(sl.load) && !touches(p, f, key) {
				continue
			}
			var first *ssa.Store
			fixL := func(v ssa.Value) (cval, bool) {
				if u, ok := v.(*ssa.UnOp); ok {
					if slot := sl.slotOf(u.X); slot != "" {
						if cv, ok := slots[slot]; ok && cv.v != nil {
							return cv, true
						}
					}
				}
				return cval{}, false
			}
			res := (&sccp{p: p, Fix: fixL}).Run(f, nil)
			for _, b := range f.DomPreorder() {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && first == nil && res.Reach[b] {
						if k, e := addrFieldKey(st.Addr, 0); k == key && !e {
							first = st
						}
					}
				}
			}
			if first == nil || f != sl.load {
				continue
			}
			var got cval
			if k, ok := first.Val.(*ssa.Const); ok && k.Value != nil {
				got = cval{v: k.Value}
			} else {
				got = res.Val[first.Val]
			}
			good := got.v == nil || constant.BoolVal(got.v) == val
			c.Cond(good, "recorded-size", rel(f)+" "+key, p.pos(first.Pos()), fmt.Sprintf("a state saved while %s was %v is loaded as %v", key, val, !val))
		}
	}
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func affineBase(v ssa.Value) (ssa.Value, int) {
	off := 0
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.BinOp:
			if k, ok := intConst(x.Y); ok && x.Op == token.ADD {
				v, off = x.X, off+k
				continue
			}
			if k, ok := intConst(x.Y); ok && x.Op == token.SUB {
				v, off = x.X, off-k
				continue
			}
			if k, ok := intConst(x.X); ok && x.Op == token.ADD {
				v, off = x.Y, off+k
				continue
			}
		}
		return v, off
	}
}

func flowsFrom(v, src ssa.Value, d int) bool {
	if v == src {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if flowsFrom(e, src, d+1) {
				return true
			}
		}
	case *ssa.Convert:
		return flowsFrom(x.X, src, d+1)
	case *ssa.Call:
		if g := staticCallee(&x.Call); g != nil && len(g.Blocks) > 0 && inModule(g) {
			for _, b := range g.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 && flowsFrom(r.Results[0], src, d+1) {
					return true
				}
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if g := staticCallee(&c.Call); g != nil && len(g.Blocks) > 0 && inModule(g) {
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > x.Index && flowsFrom(r.Results[x.Index], src, d+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// instrMods names a field of the package the instruction may change.
func (p *Program) instrMods(in ssa.Instruction, pkg string) string {
	hit := func(k string) bool {
		return strings.HasPrefix(k, pkg+".") && !strings.Contains(k, ".SolverState.")
	}
	switch x := in.(type) {
	case *ssa.Store:
		k, _ := addrFieldKey(x.Addr, 0)
		if hit(k) {
			return k
		}
	case *ssa.MapUpdate:
		k, _ := valueFieldKey(x.Map, 0)
		if hit(k) {
			return k
		}
	}
	if ci, ok := in.(ssa.CallInstruction); ok {
		com := ci.Common()
		if b, ok := com.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear" || b.Name() == "copy") {
			if k, _ := valueFieldKey(com.Args[0], 0); hit(k) {
				return k
			}
		}
		for _, a := range com.Args {
			if fa, ok := a.(*ssa.FieldAddr); ok && structOf(deref(fa.Type())) == nil {
				if k := fieldKey(fa.X.Type(), fa.Field); hit(k) {
					return k
				}
			}
		}
		for _, t := range p.Targets(com) {
			for k := range p.mods().Of(t) {
				if hit(k) {
					return k + " (in " + rel(t) + ")"
				}
			}
		}
	}
	return ""
}

// checkLearnts: a learnt clause carries the number of the state it was learnt
// in and survives loading only if it is not younger than the loaded state.
func checkLearnts(c *Ctx, p *Program, s stateSpec, load *ssa.Function, sl *stateSlots) {
	rule := "state-validity"
	isLearntOn := func(v ssa.Value) bool {
		k, e := valueFieldKey(v, 0)
		return !e && strings.HasSuffix(k, "clause.learntOnState")
	}
	isID := func(v ssa.Value) bool {
		k, e := valueFieldKey(v, 0)
		return !e && strings.HasSuffix(k, ".SolverState.id")
	}
	keeps := func(b *ssa.BasicBlock) bool {
		for _, x := range b.Parent().Blocks {
			if x != b && !b.Dominates(x) {
				continue
			}
			for _, in := range x.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if k, e := addrFieldKey(st.Addr, 0); e && k == "sat.CoreSolver.learnts" {
						return true
					}
				}
				if call, ok := in.(*ssa.Call); ok {
					if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						for _, e := range variadicElems(call.Call.Args[1]) {
							if t, ok := deref(e.Type()).(*types.Named); ok && t.Obj().Name() == "clause" {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	for _, f := range sl.loadFns {
		for _, b := range f.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			op := bo.Op
			var rhs ssa.Value
			off := 0
			if x, o := affineBase(bo.X); isLearntOn(x) {
				y, o2 := affineBase(bo.Y)
				rhs, off = y, o2-o
			} else if y, o := affineBase(bo.Y); isLearntOn(y) {
				x, o2 := affineBase(bo.X)
				rhs, off = x, o2-o
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[op]
			} else {
				continue
			}
			if k, e := valueFieldKey(rhs, 0); !isID(rhs) && !isConstV(rhs) && (k == "" || e) {
				continue
			}
			if !isID(rhs) {
				if _, isC := rhs.(*ssa.Const); isC {
					continue
				}
				c.Bad(rule, rel(f)+" learnt-clauses", p.pos(bo.Pos()), "whether a learnt clause survives does not depend on the state that is loaded")
				continue
			}
			for i, su := range b.Succs {
				if len(su.Preds) != 1 || !keeps(su) {
					continue
				}
				rel_ := op
				if i == 1 {
					rel_ = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
				}
				// kept: learntOnState rel_ id+off
				ok := rel_ == token.LEQ && off <= 0 || rel_ == token.LSS && off <= 1 || rel_ == token.EQL && off <= 0
				c.Cond(ok, rule, rel(f)+" learnt-clauses", p.pos(bo.Pos()), fmt.Sprintf("a learnt clause is kept when learntOnState %s id%+d: clauses learnt after the state was saved depend on constraints that are gone", rel_, off))
			}
		}
	}
	// every clause put among the learnt ones carries the current state number
	for _, f := range p.Funcs {
		if shortPkg(pkgOf(f)) != "sat" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				bi, ok := call.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" {
					continue
				}
				if k, e := valueFieldKey(call.Call.Args[0], 0); k != "sat.CoreSolver.learnts" || e {
					continue
				}
				for _, el := range variadicElems(call.Call.Args[1]) {
					nc, ok := el.(*ssa.Call)
					if !ok {
						continue
					}
					g := staticCallee(&nc.Call)
					if g == nil || len(nc.Call.Args) < 2 {
						continue
					}
					id := nc.Call.Args[len(nc.Call.Args)-1]
					base, off := affineBase(id)
					k, e := valueFieldKey(base, 0)
					c.Cond(k == "sat.CoreSolver.stateId" && !e && off == 0, rule, rel(f)+" learnt-on", p.pos(nc.Pos()),
						"a learnt clause is not marked with the number of the current state: loading an earlier state cannot tell that it has to go")
				}
			}
		}
	}
}

func checkResultFlag(c *Ctx, p *Program, s stateSpec) {
	rule := "cached-result"
	// every exported operation that changes the problem
	prob := []string{}
	for _, k := range s.restored {
		if strings.HasSuffix(k, "hardClauses") || strings.HasSuffix(k, "softClauses") {
			prob = append(prob, k)
		}
	}
	searches := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if shortPkg(pkgOf(f)) == s.pkg && strings.HasSuffix(f.Name(), "innerSearch") {
			searches[f] = true
		}
	}
	for _, f := range p.Funcs {
		if shortPkg(pkgOf(f)) != s.pkg || !exported(f) || f.Signature.Recv() == nil || !isNamed(deref(f.Signature.Recv().Type()), s.pkg, "Solver") || f.Parent() != nil {
			continue
		}
		m := p.mods().Of(f)
		changes := false
		for _, k := range prob {
			if m[k] {
				changes = true
			}
		}
		solves := false
		for g := range p.Reach(f) {
			if searches[g] {
				solves = true
			}
		}
		if !changes || solves {
			continue
		}
		w := &mustWriter{p: p, key: s.resultFlag, memo: map[*ssa.Function]int{}}
		path := w.path(f)
		c.Cond(path == nil, rule, rel(f)+" invalidates", p.pos(f.Pos()), fmt.Sprintf("%s changes the problem but can return without invalidating the cached result; path: %s", rel(f), blockPath(p, path)))
	}
	// stores of the flag
	for _, f := range p.Funcs {
		if shortPkg(pkgOf(f)) != s.pkg {
			continue
		}
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if k, e := addrFieldKey(st.Addr, 0); k != s.resultFlag || e {
					continue
				}
				kc, ok := st.Val.(*ssa.Const)
				if ok && kc.Value != nil && !constant.BoolVal(kc.Value) {
					continue
				}
				// set: the result stored with it comes from a search of this call
				found := false
				for _, b2 := range f.Blocks {
					for j, in2 := range b2.Instrs {
						st2, ok := in2.(*ssa.Store)
						if !ok {
							continue
						}
						if k2, _ := addrFieldKey(st2.Addr, 0); k2 != s.pkg+".Solver.result" {
							continue
						}
						same := b2 == b || b2.Dominates(b) || b.Dominates(b2)
						_, _ = i, j
						if same && fromSearch(p, st2.Val, searches, 0) {
							found = true
						}
					}
				}
				c.Cond(found, rule, rel(f)+" set", p.pos(st.Pos()), "the cached result is declared valid without the result of a search of this very problem stored with it")
			}
		}
	}
}

func fromSearch(p *Program, v ssa.Value, searches map[*ssa.Function]bool, d int) bool {
	if d > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Extract:
		return fromSearch(p, x.Tuple, searches, d+1)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && fromSearch(p, st.Val, searches, d+1) {
					return true
				}
			}
		}
	case *ssa.Call:
		for _, t := range p.Targets(&x.Call) {
			for g := range p.Reach(t) {
				if searches[g] {
					return true
				}
			}
		}
	}
	return false
}
