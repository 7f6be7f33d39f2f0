package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C10"] = checkC10 }

// C10: BDDs survive garbage collections and changes of the variable order.

func checkC10(c *Ctx) {
	c.Rule("referenced", "the node of a BDD that is handed out is referenced, so that no garbage collection frees it", 10)
	c.Rule("protected", "a node that is still needed is kept (on the stack or by a reference) while other nodes are created", 10)
	c.Rule("released", "a node is not used any more after its reference was given back", 5)
	c.Rule("stack", "what is read from the stack is what this very computation has put there, and a computation leaves the stack as it found it", 3)
	c.Rule("cofactors", "a node is built from the results for the low and the high children, at the level of the node that was expanded", 3)
	c.Rule("flag", "a request to reorder ends the computation at once and reaches the place that reorders", 12)
	c.Rule("redone", "an operation that was interrupted by a reordering is redone from its beginning, with everything that depends on the order", 4)
	c.Rule("paired", "reordering is enabled again on every way out of a section that disables it", 4)
	c.Rule("marks", "marks put on nodes are taken back before nodes are created or the operation ends, and only where they were put", 4)
	c.Rule("collected", "a garbage collection keeps all that is referenced or on the stack and everything below", 3)
	c.Rule("unique", "a node is taken for another one only if level, low and high agree, and it is found again under its hash in the current table", 4)
	if c.fixture {
		return
	}
	b := newBddCheck(c)
	b.referenced()
	b.lifetimes()
	b.flags()
	b.redone()
	b.marks()
	b.collection()
	b.unique()
}

type bddCheck struct {
	c    *Ctx
	p    *Program
	fns  []*ssa.Function
	gc   map[*ssa.Function]bool // may free or move nodes
	wipe map[*ssa.Function]bool // may drop what is on the stack
	// functions whose node result is referenced / on the stack when it is returned
	refRet, pushRet map[*ssa.Function]bool
	off             map[*ssa.Function]bool   // only called while reordering is disabled
	sw              map[*ssa.Function]string // switches reordering on or off
}

func bddFn(f *ssa.Function) bool { return f != nil && shortPkg(pkgOf(f)) == "bdd" }

// prim: the call of a primitive of the kernel.
func prim(cc *ssa.CallCommon, names ...string) bool {
	g := staticCallee(cc)
	if g == nil || !bddFn(canonOf(g)) {
		return false
	}
	for _, n := range names {
		if g.Name() == n {
			return true
		}
	}
	return false
}

func newBddCheck(c *Ctx) *bddCheck {
	b := &bddCheck{c: c, p: c.P, gc: map[*ssa.Function]bool{}, wipe: map[*ssa.Function]bool{}, refRet: map[*ssa.Function]bool{}, pushRet: map[*ssa.Function]bool{}, off: map[*ssa.Function]bool{}}
	for _, f := range b.p.Funcs {
		if bddFn(f) && len(f.Blocks) > 0 {
			b.fns = append(b.fns, f)
		}
	}
	b.gc = b.callers(func(f *ssa.Function) bool { return f.Name() == "gbc" || f.Name() == "reorderGbc" })
	b.wipe = b.callers(func(f *ssa.Function) bool { return f.Name() == "initRef" })
	return b
}

// callers: the functions that may, directly or not, run one of the base
// functions.
func (b *bddCheck) callers(base func(*ssa.Function) bool) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range b.fns {
		if base(f) {
			m[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range b.fns {
			if m[f] {
				continue
			}
			for _, bl := range f.Blocks {
				for _, in := range bl.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && m[mc.Fn.(*ssa.Function)] {
						m[f], changed = true, true
					}
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := staticCallee(ci.Common()); g != nil && m[canonOf(g)] {
							m[f], changed = true, true
						}
					}
				}
			}
		}
	}
	return m
}

func (b *bddCheck) isGC(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if g := staticCallee(ci.Common()); g != nil {
		return b.gc[canonOf(g)]
	}
	// an operation handed in
	if !ci.Common().IsInvoke() {
		if s, ok := ci.Common().Value.Type().Underlying().(*types.Signature); ok && flagging(s) {
			return true
		}
	}
	return false
}

func (b *bddCheck) isWipe(in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	g := staticCallee(ci.Common())
	return g != nil && b.wipe[canonOf(g)]
}

// flagging: a node and the request to reorder.
func flagging(s *types.Signature) bool {
	r := s.Results()
	return r.Len() == 2 && isInt32(r.At(0).Type()) && isBoolTy(r.At(1).Type())
}

func isInt32(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Kind() == types.Int32
}

// node: the node a call yields.
func nodeOf(call *ssa.Call) ssa.Value {
	r := call.Call.Signature().Results()
	switch {
	case r.Len() == 1 && isInt32(r.At(0).Type()):
		return call
	case r.Len() == 2 && isInt32(r.At(0).Type()):
		if e := extractOf(call, 0); e != nil {
			return e
		}
	}
	return nil
}

// ---------------------------------------------------------------- references

// birth: how a node value comes into being.
//
//	"ref"    referenced
//	"stack"  on the stack
//	"free"   not kept by anything
//	""       not a new node (parameter, field, constant, read from the stack)
func (b *bddCheck) birth(v ssa.Value) string {
	var call *ssa.Call
	switch x := v.(type) {
	case *ssa.Call:
		call = x
	case *ssa.Extract:
		call, _ = x.Tuple.(*ssa.Call)
		if x.Index != 0 {
			return ""
		}
	}
	if call == nil {
		return ""
	}
	g := staticCallee(&call.Call)
	if g == nil || !bddFn(canonOf(g)) {
		if g == nil && flagging(call.Call.Signature()) {
			return "free"
		}
		return ""
	}
	g = canonOf(g)
	switch {
	case g.Name() == "addRef":
		return "ref"
	case g.Name() == "pushRef":
		return ""
	case b.refRet[g]:
		return "ref"
	case b.pushRet[g]:
		return "stack"
	case b.gc[g] && nodeOf(call) != nil:
		return "free"
	}
	return ""
}

// results: the node values a function returns on success, through phis.
func (b *bddCheck) results(f *ssa.Function) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if ph, ok := v.(*ssa.Phi); ok {
			for _, e := range ph.Edges {
				add(e)
			}
			return
		}
		out = append(out, v)
	}
	for _, bl := range f.Blocks {
		if r, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
			add(r.Results[0])
		}
	}
	return out
}

// home: the block the value is returned from.
func (b *bddCheck) home(f *ssa.Function, v ssa.Value) *ssa.BasicBlock {
	for _, bl := range f.Blocks {
		if r, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 && r.Results[0] == v {
			return bl
		}
	}
	return nil
}

// isRef: the value is a referenced node in the block at.
func (b *bddCheck) isRef(v ssa.Value, at *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() != nil {
		for _, r := range *v.Referrers() {
			if call, ok := r.(*ssa.Call); ok && prim(&call.Call, "addRef", "incRef") && at != nil && call.Block().Dominates(at) {
				return true
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !b.isRef(e, x.Block().Preds[i], seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		// the nodes of the variables and of other BDDs
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.IndexAddr:
				t, _ := valueFieldKey(a.X, 0)
				return t == "bdd.Kernel.vars"
			case *ssa.FieldAddr:
				return fieldKey(a.X.Type(), a.Field) == "bdd.BDD.Index"
			}
		}
	case *ssa.Field:
		return fieldKey(x.X.Type(), x.Field) == "bdd.BDD.Index"
	}
	return b.birth(v) == "ref"
}

func (b *bddCheck) referenced() {
	c, p := b.c, b.p
	// greatest solution: functions all of whose results are referenced
	for _, f := range b.fns {
		if r := f.Signature.Results(); r.Len() > 0 && isInt32(r.At(0).Type()) && !flagging(f.Signature) {
			b.refRet[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range b.fns {
			if !b.refRet[f] {
				continue
			}
			for _, v := range b.results(f) {
				if !b.isRef(v, b.home(f, v), map[ssa.Value]bool{}) {
					delete(b.refRet, f)
					changed = true
					break
				}
			}
		}
	}
	for _, f := range b.fns {
		allConst := true
		for _, v := range b.results(f) {
			allConst = allConst && isConstV(v)
		}
		if allConst {
			delete(b.refRet, f)
		}
	}
	// functions that return what they have pushed
	for _, f := range b.fns {
		if r := f.Signature.Results(); r.Len() == 1 && isInt32(r.At(0).Type()) && b.gc[f] {
			b.pushRet[f] = true
		}
	}
	pushed := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Parameter:
			return true
		}
		if call, ok := v.(*ssa.Call); ok {
			if prim(&call.Call, "pushRef") {
				return true
			}
			if g := staticCallee(&call.Call); g != nil {
				return b.pushRet[canonOf(g)]
			}
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for _, f := range b.fns {
			if !b.pushRet[f] {
				continue
			}
			for _, v := range b.results(f) {
				if !pushed(v) {
					delete(b.pushRet, f)
					changed = true
					break
				}
			}
		}
	}
	// every BDD
	t := p.Type("bdd", "BDD")
	st := structOf(t)
	idx := -1
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Index" {
			idx = i
		}
	}
	if idx < 0 {
		return
	}
	n := map[string]int{}
	judge := func(f *ssa.Function, v ssa.Value, at *ssa.BasicBlock, pos token.Pos) {
		key := fmt.Sprintf("%s %d", rel(f), n[rel(f)])
		n[rel(f)]++
		c.Cond(b.isRef(v, at, map[ssa.Value]bool{}), "referenced", key, p.pos(pos), "the node of the BDD is not referenced, so the next garbage collection may free it")
	}
	for _, f := range b.fns {
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != idx || !types.Identical(deref(fa.X.Type()), t) {
					continue
				}
				if prm, ok := s.Val.(*ssa.Parameter); ok {
					i := paramIndex(prm)
					for _, ci := range p.callsOf(f) {
						judge(ci.Parent(), callArgs(ci.Common(), f)[i], ci.Block(), ci.Pos())
					}
					continue
				}
				judge(f, s.Val, bl, s.Pos())
			}
		}
	}
}

// ---------------------------------------------------------------- lifetimes

type lifeState struct {
	ref, pushed, dirty, released bool
	names                        string
}

// lifetimes follows every new node to its uses.
func (b *bddCheck) lifetimes() {
	c, p := b.c, b.p
	for _, f := range b.fns {
		if f.Name() == "pushRef" || f.Name() == "addRef" || f.Name() == "delRef" {
			continue
		}
		n := map[string]int{}
		for _, bl := range f.Blocks {
			for i, in := range bl.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				v := nodeOf(call)
				if v == nil {
					continue
				}
				how := b.birth(v)
				if how == "" {
					continue
				}
				name := "operation"
				if g := staticCallee(&call.Call); g != nil {
					name = g.Name()
				}
				n[name]++
				key := fmt.Sprintf("%s: %s %d", rel(f), name, n[name])
				lost, reused := b.life(f, call, v, how, bl, i)
				c.Cond(lost == "", "protected", key, p.pos(call.Pos()), lost)
				if how == "ref" {
					c.Cond(reused == "", "released", key, p.pos(call.Pos()), reused)
				}
			}
		}
		b.stack(f)
	}
}

func (b *bddCheck) life(f *ssa.Function, call *ssa.Call, v ssa.Value, how string, bl *ssa.BasicBlock, at int) (lost, reused string) {
	p := b.p
	type item struct {
		bl   *ssa.BasicBlock
		i    int
		pred *ssa.BasicBlock
		al   map[ssa.Value]bool
		st   lifeState
		k    facts
	}
	known := facts{}
	if e, ok := v.(*ssa.Extract); ok {
		if fl := extractOf(call, 1); fl != nil && isBoolTy(fl.Type()) && e.Index == 0 {
			known[fl] = false
		}
	}
	seen := map[string]bool{}
	start := item{bl: bl, i: at + 1, al: map[ssa.Value]bool{v: true}, st: lifeState{ref: how == "ref", pushed: how == "stack"}, k: known}
	work := []item{start}
	for len(work) > 0 && len(seen) < 4000 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.i == 0 {
			// phis
			al := map[ssa.Value]bool{}
			for k := range it.al {
				al[k] = true
			}
			for _, in := range it.bl.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for j, pr := range it.bl.Preds {
					if pr == it.pred {
						if it.al[ph.Edges[j]] {
							al[ph] = true
						} else {
							delete(al, ph)
						}
					}
				}
			}
			it.al = al
		}
		var names []string
		for k := range it.al {
			names = append(names, k.Name())
		}
		sort.Strings(names)
		sig := fmt.Sprint(it.bl.Index, it.i, names, it.st, it.k.sig())
		if seen[sig] {
			continue
		}
		seen[sig] = true
		dead := false
		for j := it.i; j < len(it.bl.Instrs) && !dead; j++ {
			in := it.bl.Instrs[j]
			if in == ssa.Instruction(call) {
				dead = true
				break
			}
			switch in.(type) {
			case *ssa.DebugRef, *ssa.Phi:
				continue
			}
			uses := false
			for _, op := range in.Operands(nil) {
				if *op != nil && it.al[*op] {
					uses = true
				}
			}
			ci, isCall := in.(ssa.CallInstruction)
			if uses {
				if it.st.dirty && lost == "" {
					lost = "the node is used at " + p.pos(in.Pos()) + " although it may have been freed before: nothing keeps it while other nodes are created"
				}
				if it.st.released && reused == "" {
					if _, isStore := in.(*ssa.Store); !isStore {
						reused = "the node is used at " + p.pos(in.Pos()) + " after its reference was given back"
					}
				}
				if isCall && b.isGC(in) && !it.st.ref && !it.st.pushed && lost == "" {
					lost = "nothing keeps the node while " + calleeName(ci.Common()) + " works on it (" + p.pos(in.Pos()) + ")"
				}
			}
			if isCall {
				cc := ci.Common()
				if c2, ok := in.(*ssa.Call); ok {
					it.k.forget(c2)
				}
				switch {
				case uses && prim(cc, "pushRef"):
					it.st.pushed = true
					if cv, ok := in.(*ssa.Call); ok {
						it.al[cv] = true
					}
				case uses && prim(cc, "addRef"):
					it.st.ref = true
					if cv, ok := in.(*ssa.Call); ok {
						if e := nodeOf(cv); e != nil {
							it.al[e] = true
						}
					}
				case uses && prim(cc, "setRefcou"):
					it.st.ref = true
				case uses && prim(cc, "delRef", "decRef"):
					it.st.ref = false
					it.st.released = true
				case prim(cc, "popref"):
					it.st.pushed = false
				case b.isGC(in):
					if b.isWipe(in) {
						it.st.pushed = false
					}
					if !it.st.ref && !it.st.pushed {
						it.st.dirty = true
					}
				case b.isWipe(in):
					it.st.pushed = false
				}
			}
			switch x := in.(type) {
			case *ssa.Convert:
				if it.al[x.X] {
					it.al[x] = true
				}
			case *ssa.Return, *ssa.Panic:
				dead = true
			}
		}
		if dead {
			continue
		}
		succs, known := it.k.next(it.bl)
		for i, s := range succs {
			al := map[ssa.Value]bool{}
			for k := range it.al {
				al[k] = true
			}
			work = append(work, item{bl: s, i: 0, pred: it.bl, al: al, st: it.st, k: known[i]})
		}
	}
	return
}

// stack interprets the stack of nodes within one function.
func (b *bddCheck) stack(f *ssa.Function) {
	c, p := b.c, b.p
	uses := false
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && prim(ci.Common(), "readRef", "popref") {
				uses = true
			}
		}
	}
	if !uses {
		return
	}
	bad := ""
	read := map[*ssa.Call]map[ssa.Value]bool{}
	type item struct {
		bl    *ssa.BasicBlock
		st    []ssa.Value
		known facts
		phis  map[*ssa.Phi]ssa.Value // where the phis come from
	}
	resolve := func(it item, v ssa.Value) ssa.Value {
		for i := 0; i < 10; i++ {
			ph, ok := v.(*ssa.Phi)
			if !ok || it.phis[ph] == nil {
				break
			}
			v = it.phis[ph]
		}
		return v
	}
	seen := map[string]bool{}
	work := []item{{bl: f.Blocks[0], known: facts{}}}
	for len(work) > 0 && len(seen) < 5000 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		sig := fmt.Sprint(it.bl.Index)
		for _, v := range it.st {
			sig += " " + v.Name()
		}
		sig += it.known.sig()
		if seen[sig] {
			continue
		}
		seen[sig] = true
		st := append([]ssa.Value{}, it.st...)
		stop := false
		for _, in := range it.bl.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if ok {
				cc := ci.Common()
				if call, ok := in.(*ssa.Call); ok {
					it.known.forget(call)
				}
				switch {
				case prim(cc, "pushRef"):
					if len(st) < 6 {
						st = append(st, resolve(it, cc.Args[len(cc.Args)-1]))
					}
				case prim(cc, "readRef", "popref"):
					k, isConst := intConst(cc.Args[len(cc.Args)-1])
					if !isConst {
						return
					}
					if k > len(st) || k < 0 {
						bad = "the stack is read or popped deeper than this computation has pushed (" + p.pos(in.Pos()) + ")"
						stop = true
						break
					}
					if prim(cc, "popref") {
						st = st[:len(st)-k]
					} else if call, ok := in.(*ssa.Call); ok {
						if k == 0 {
							bad = "the stack is read above its top (" + p.pos(in.Pos()) + ")"
							stop = true
							break
						}
						if read[call] == nil {
							read[call] = map[ssa.Value]bool{}
						}
						read[call][st[len(st)-k]] = true
					}
				case prim(cc, "initRef"):
					st = nil
				}
			}
			if stop {
				break
			}
			if r, ok := in.(*ssa.Return); ok {
				asked := false
				if len(r.Results) == 2 {
					if v, ok := it.known.val(r.Results[1]); ok && v {
						asked = true
					}
				}
				if !asked && len(st) != 0 {
					bad = fmt.Sprintf("%d nodes of this computation are left on the stack (%s)", len(st), p.pos(r.Pos()))
				}
				stop = true
			}
		}
		if stop {
			continue
		}
		succs, known := it.known.next(it.bl)
		for i, s := range succs {
			phis := map[*ssa.Phi]ssa.Value{}
			for k, v := range it.phis {
				phis[k] = v
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				delete(phis, ph)
				for j, pr := range s.Preds {
					if e := resolve(it, ph.Edges[j]); pr == it.bl && e != ssa.Value(ph) {
						phis[ph] = e
					}
				}
			}
			work = append(work, item{bl: s, st: st, known: known[i], phis: phis})
		}
	}
	c.Cond(bad == "", "stack", rel(f), p.pos(f.Pos()), bad)
	// what the nodes are built from
	n := 0
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || !prim(&call.Call, "makeNode", "makeNodeUnsafe") || len(call.Call.Args) != 4 {
				continue
			}
			n++
			key := fmt.Sprintf("%s makeNode %d", rel(f), n)
			b.cofactors(call, key, read)
		}
	}
}

// children: the nodes whose low or high child the value was computed from.
func (b *bddCheck) children(v ssa.Value, read map[*ssa.Call]map[ssa.Value]bool, d int) (lows, highs map[string]bool, known bool) {
	lows, highs = map[string]bool{}, map[string]bool{}
	if d > 4 {
		return
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			l, h, k := b.children(e, read, d+1)
			for s := range l {
				lows[s] = true
			}
			for s := range h {
				highs[s] = true
			}
			known = known || k
		}
		return
	case *ssa.Extract:
		return b.children(x.Tuple, read, d+1)
	case *ssa.Call:
		switch {
		case prim(&x.Call, "readRef"):
			for s := range read[x] {
				l, h, k := b.children(s, read, d+1)
				for s := range l {
					lows[s] = true
				}
				for s := range h {
					highs[s] = true
				}
				known = known || k
			}
			return
		case prim(&x.Call, "low"):
			lows[x.Call.Args[len(x.Call.Args)-1].Name()] = true
			return lows, highs, true
		case prim(&x.Call, "high"):
			highs[x.Call.Args[len(x.Call.Args)-1].Name()] = true
			return lows, highs, true
		}
		for _, a := range x.Call.Args {
			if call, ok := a.(*ssa.Call); ok && prim(&call.Call, "low", "high") {
				l, h, _ := b.children(call, read, d+1)
				for s := range l {
					lows[s] = true
				}
				for s := range h {
					highs[s] = true
				}
				known = true
			}
		}
	}
	return
}

func (b *bddCheck) cofactors(call *ssa.Call, key string, read map[*ssa.Call]map[ssa.Value]bool) {
	c, p := b.c, b.p
	level, low, high := call.Call.Args[1], call.Call.Args[2], call.Call.Args[3]
	l1, h1, k1 := b.children(low, read, 0)
	l2, h2, k2 := b.children(high, read, 0)
	bad := ""
	if k1 && len(h1) > 0 {
		bad = "the low child of the new node is computed from a high child"
	}
	if k2 && len(l2) > 0 {
		bad = "the high child of the new node is computed from a low child"
	}
	if k1 && k2 && bad == "" && strings.Join(sortedKeys(l1), ",") != strings.Join(sortedKeys(h2), ",") {
		bad = "the children of the new node are computed from different operands"
	}
	if lv, ok := level.(*ssa.Call); ok && prim(&lv.Call, "level") && k1 && k2 && bad == "" {
		x := lv.Call.Args[len(lv.Call.Args)-1].Name()
		if !l1[x] {
			bad = "the new node gets the level of a node that was not expanded"
		}
	}
	if !k1 && !k2 {
		return
	}
	c.Cond(bad == "", "cofactors", key, p.pos(call.Pos()), bad)
}

func sortedKeys[V any](m map[string]V) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
