package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C16"] = checkC16 }

// checkC16: the same sequence of calls gives the same results.  Sources of
// non-determinism are the order of a map, random numbers, the clock,
// goroutines and state shared by all factories and solvers.
func checkC16(c *Ctx) {
	c.Rule("map-order", "what a loop over a map does is the same in whatever order the elements come: it only adds to sets and maps under keys of the element, sums, counts, keeps a minimum, or collects into a slice", 14)
	c.Rule("sorted-before-use", "a slice that was filled in the order of a map is put into an order that depends on its elements only, before anything looks at it or it is handed out", 7)
	c.Rule("total-order", "the comparator that puts such a slice into order tells any two elements apart", 3)
	c.Rule("random", "random numbers are drawn in the randomizer, from a source made from the seed of its configuration; elsewhere only where the answer does not depend on them", 8)
	c.Rule("clock", "only the timeout handler looks at the clock", 1)
	c.Rule("no-shared-state", "nothing is kept in package variables: what was done with another factory or solver does not matter", 20)
	c.Rule("no-concurrency", "no part of a computation runs concurrently", 1)
	if c.fixture {
		return
	}
	o := &ordAn{p: c.P, c: c, eff: map[string][]problem{}, ret: map[*ssa.Function]bool{}}
	o.maps()
	o.random()
	o.shared()
}

type problem struct {
	pos token.Pos
	msg string
}

type ordAn struct {
	p   *Program
	c   *Ctx
	eff map[string][]problem
	ret map[*ssa.Function]bool // functions that return a slice in map order
}

// a place where a slice in map order is kept: values of the function and
// addresses (by path).
type heap16 struct {
	f     *ssa.Function
	vals  map[ssa.Value]bool
	addrs map[string]bool
	what  string
	from  *ssa.BasicBlock // the head of the loop that fills it
}

func isMapType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// unorderedCall: library calls whose result comes in the order of a map.
func unorderedCall(ci ssa.CallInstruction) bool {
	g := ci.Common().StaticCallee()
	if g == nil {
		return false
	}
	if o := g.Origin(); o != nil {
		g = o
	}
	n := g.String()
	switch n {
	case "maps.Keys", "maps.Values":
		return true
	case "(*github.com/emirpasic/gods/maps/hashmap.Map).Keys", "(*github.com/emirpasic/gods/maps/hashmap.Map).Values",
		"(*github.com/emirpasic/gods/sets/hashset.Set).Values":
		return true
	case "(github.com/emirpasic/gods/maps/hashmap.Map).Keys", "(github.com/emirpasic/gods/maps/hashmap.Map).Values",
		"(reflect.Value).MapKeys":
		return true
	}
	return false
}

func (o *ordAn) maps() {
	p, c := o.p, o.c
	type item struct {
		h    *heap16
		key  string
		pos  token.Pos
		from *ssa.Function
	}
	var work []item
	cnt := map[string]int{}
	name := func(f *ssa.Function, what string) string {
		k := rel(f) + " " + what
		cnt[k]++
		if cnt[k] > 1 {
			k = fmt.Sprintf("%s #%d", k, cnt[k])
		}
		return k
	}
	for _, f := range p.Funcs {
		if generatedParser(p, f) {
			continue
		}
		loops := naturalLoops(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Next:
					if x.IsString {
						continue
					}
					rng, ok := x.Iter.(*ssa.Range)
					if !ok || !isMapType(rng.X.Type()) {
						continue
					}
					key := name(f, "over "+typeName16(rng.X.Type()))
					if !anyUsed(x) {
						c.Ok("map-order", key, p.pos(rng.Pos()))
						continue
					}
					loop := loops[b]
					if loop == nil {
						c.Bad("map-order", key, p.pos(rng.Pos()), "only one element of the map is looked at: which one depends on its order")
						continue
					}
					ps, hs := o.loop(f, b, loop, map[ssa.Value]bool{x: true}, nil)
					for _, h := range hs {
						work = append(work, item{h, key + " -> " + h.what, rng.Pos(), f})
					}
					o.report("map-order", key, rng.Pos(), ps)
				case *ssa.Call:
					if !unorderedCall(x) {
						continue
					}
					h := &heap16{f: f, vals: map[ssa.Value]bool{x: true}, addrs: map[string]bool{}, what: x.Common().StaticCallee().Name()}
					work = append(work, item{h, name(f, "call of "+h.what), x.Pos(), f})
				}
			}
		}
	}
	seen := map[string]bool{}
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		if seen[it.key] {
			continue
		}
		seen[it.key] = true
		ps, escapes := o.settle(it.h, it.pos)
		if escapes && len(ps) == 0 {
			// handed out by an unexported function: its callers have to settle it
			for _, cs := range p.callsOf(it.from) {
				if v, ok := cs.(*ssa.Call); ok {
					h := &heap16{f: v.Parent(), vals: map[ssa.Value]bool{v: true}, addrs: map[string]bool{}, what: "result of " + it.from.Name()}
					work = append(work, item{h, name(v.Parent(), "result of "+rel(it.from)), v.Pos(), v.Parent()})
				}
			}
		}
		o.report("sorted-before-use", it.key, it.pos, ps)
	}
}

func (o *ordAn) report(rule, key string, pos token.Pos, ps []problem) {
	if len(ps) == 0 {
		o.c.Ok(rule, key, o.p.pos(pos))
		return
	}
	q := ps[0].pos
	if !q.IsValid() {
		q = pos
	}
	o.c.Bad(rule, key, o.p.pos(q), ps[0].msg)
}

func generatedParser(p *Program, f *ssa.Function) bool {
	if shortPkg(pkgOf(f)) != "parser" {
		return false
	}
	return strings.Contains(p.pos(f.Pos()), "logicngpropositional_")
}

func anyUsed(n *ssa.Next) bool {
	for _, r := range *n.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index > 0 && len(*e.Referrers()) > 0 {
			return true
		}
	}
	return false
}

func usesAny(b *ssa.BasicBlock, v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if r.Block() == b {
			return true
		}
	}
	return false
}

// addrPath names an address by the value it starts from and the fields on the
// way; "" when it cannot be named.
func addrPath(a ssa.Value, d int) string {
	if d > 8 {
		return ""
	}
	switch x := a.(type) {
	case *ssa.Alloc, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Call, *ssa.Extract, *ssa.Phi, *ssa.MakeMap, *ssa.MakeSlice:
		return fmt.Sprintf("%s@%p", a.Name(), a)
	case *ssa.FieldAddr:
		if s := addrPath(x.X, d+1); s != "" {
			return s + "." + fmt.Sprint(x.Field)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if s := addrPath(x.X, d+1); s != "" {
				return s + "*"
			}
		}
	case *ssa.IndexAddr:
		if s := addrPath(x.X, d+1); s != "" {
			return fmt.Sprintf("%s[%s@%p]", s, x.Index.Name(), x.Index)
		}
	case *ssa.ChangeType:
		return addrPath(x.X, d+1)
	}
	return ""
}

type updKind int

const (
	uNone updKind = iota
	uSum
	uLogic
	uMul
	uAppend
	uConst
	uSelect
	uBad
)

// loopCtx is one loop whose elements come in an unknown order, or the body of
// a function that is called once per element.
type loopCtx struct {
	o     *ordAn
	f     *ssa.Function
	head  *ssa.BasicBlock
	in    func(b *ssa.BasicBlock) bool
	elem  map[ssa.Value]bool // derived from the element
	ord   map[ssa.Value]bool // depends on which elements came before
	accs  map[*ssa.Phi]updKind
	own   map[ssa.Value]bool // values of the update chains
	fills map[*ssa.IndexAddr]bool
	cst   map[*ssa.Phi]string
	mine  map[ssa.Value]bool // parameters that hold an object made in this iteration
	ps    []problem
	hs    []*heap16
	fvs   []*ssa.FreeVar // captured lists the function appends to
	depth int
}

func (l *loopCtx) bad(pos token.Pos, format string, args ...any) {
	l.ps = append(l.ps, problem{pos, fmt.Sprintf(format, args...)})
}

func (l *loopCtx) inside(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Parent() == l.f && l.in(in.Block())
}

// loop judges the body of a loop whose elements (elems) come in an unknown
// order; index is the counter of a loop over a slice in map order.
func (o *ordAn) loop(f *ssa.Function, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, elems map[ssa.Value]bool, index *ssa.Phi) ([]problem, []*heap16) {
	l := &loopCtx{o: o, f: f, head: head, in: func(b *ssa.BasicBlock) bool { return body[b] },
		elem: elems, ord: map[ssa.Value]bool{}, accs: map[*ssa.Phi]updKind{}, own: map[ssa.Value]bool{}, fills: map[*ssa.IndexAddr]bool{}, cst: map[*ssa.Phi]string{}}
	for _, in := range head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok || phi == index {
			continue
		}
		k := uNone
		for i, pr := range head.Preds {
			if !body[pr] {
				continue
			}
			k = joinUpd(k, l.upd(phi, phi.Edges[i], map[ssa.Value]bool{}))
		}
		l.accs[phi] = k
		if k != uNone {
			l.ord[phi] = true
		}
	}
	if index != nil {
		l.ord[index] = true
	}
	l.body(index)
	l.liveOut()
	return l.ps, l.hs
}

func joinUpd(a, b updKind) updKind {
	switch {
	case a == b || b == uNone:
		return a
	case a == uNone:
		return b
	}
	return uBad
}

// upd: how the value v at the end of an iteration comes from the accumulator
// phi at its beginning.
func (l *loopCtx) upd(phi *ssa.Phi, v ssa.Value, seen map[ssa.Value]bool) updKind {
	if v == phi {
		return uNone
	}
	if seen[v] {
		return uNone
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		s := "nil"
		if x.Value != nil {
			s = x.Value.ExactString()
		}
		if o, ok := l.cst[phi]; ok && o != s {
			return uBad
		}
		l.cst[phi] = s
		return uConst
	case *ssa.Phi:
		if !l.inside(x) {
			return uBad
		}
		l.own[x] = true
		k := uNone
		for _, e := range x.Edges {
			k = joinUpd(k, l.updEdge(phi, e, seen))
		}
		return k
	case *ssa.BinOp:
		if !l.inside(x) {
			return uBad
		}
		k := uBad
		b, isBasic := x.Type().Underlying().(*types.Basic)
		switch x.Op {
		case token.ADD:
			if isBasic && b.Info()&types.IsInteger != 0 {
				k = uSum
			}
		case token.SUB:
			if isBasic && b.Info()&types.IsInteger != 0 && l.chain(phi, x.X, seen) != uBad {
				l.own[x] = true
				return joinUpd(uSum, l.chain(phi, x.X, seen))
			}
			return uBad
		case token.MUL:
			if isBasic && b.Info()&types.IsInteger != 0 {
				k = uMul
			}
		case token.OR, token.AND, token.XOR:
			k = uLogic
		}
		if k == uBad {
			return uBad
		}
		for _, y := range []ssa.Value{x.X, x.Y} {
			if c := l.chain(phi, y, seen); c != uBad {
				l.own[x] = true
				return joinUpd(k, c)
			}
		}
		return uBad
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && l.inside(x) {
			switch b.Name() {
			case "append":
				if c := l.chain(phi, x.Call.Args[0], seen); c != uBad {
					l.own[x] = true
					return joinUpd(uAppend, c)
				}
			case "min", "max":
				for _, y := range x.Call.Args {
					if c := l.chain(phi, y, seen); c != uBad {
						l.own[x] = true
						return joinUpd(uSelect, c)
					}
				}
			}
		}
	}
	// best = v guarded by a comparison of v with best
	if l.comparedWith(phi, v) {
		return uSelect
	}
	return uBad
}

func (l *loopCtx) updEdge(phi *ssa.Phi, e ssa.Value, seen map[ssa.Value]bool) updKind {
	return l.upd(phi, e, seen)
}

// chain: the value is the accumulator or an update of it.
func (l *loopCtx) chain(phi *ssa.Phi, v ssa.Value, seen map[ssa.Value]bool) updKind {
	if v == phi {
		return uNone
	}
	switch v.(type) {
	case *ssa.Const:
		return uBad
	}
	if !l.inside(v) {
		return uBad
	}
	if !l.reaches(phi, v, map[ssa.Value]bool{}) {
		return uBad
	}
	return l.upd(phi, v, seen)
}

func (l *loopCtx) reaches(phi *ssa.Phi, v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == phi {
		return true
	}
	if seen[v] || !l.inside(v) {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && l.reaches(phi, *op, seen) {
			return true
		}
	}
	return false
}

// comparedWith: some branch of the loop compares v with the accumulator, so
// that the larger (or smaller) one is kept.
func (l *loopCtx) comparedWith(phi *ssa.Phi, v ssa.Value) bool {
	for _, r := range *phi.Referrers() {
		b, ok := r.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch b.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if b.X == v || b.Y == v {
				l.own[b] = true
				return true
			}
		}
	}
	return false
}

// body: the effects of one iteration.
func (l *loopCtx) body(index *ssa.Phi) {
	blocks := []*ssa.BasicBlock{}
	for _, b := range l.f.Blocks {
		if l.in(b) {
			blocks = append(blocks, b)
		}
	}
	// places written in the loop: reading them shows what came before
	written := map[string]bool{}
	wmaps := map[string]bool{}
	for _, b := range blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if s := addrPath(x.Addr, 0); s != "" && !l.freshAddr(x.Addr) {
					written[s] = true
				}
			case *ssa.MapUpdate:
				if s := addrPath(x.Map, 0); s != "" && !l.freshAddr(x.Map) {
					wmaps[s] = true
				}
			}
		}
	}
	// propagate: element-derived and order-dependent values
	for changed := true; changed; {
		changed = false
		for _, b := range blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				e, o := l.elem[v], l.ord[v]
				if phi, ok := v.(*ssa.Phi); ok && l.accs[phi] != uNone {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if l.elem[*op] {
						e = true
					}
					if l.ord[*op] && !l.own[v] {
						o = true
					}
				}
				switch x := v.(type) {
				case *ssa.Lookup:
					if s := addrPath(x.X, 0); s != "" && wmaps[s] && !l.accumLookup(x) {
						o = true
					}
				case *ssa.UnOp:
					if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && l.holdsOrd(al) {
						o = true
					}
					if x.Op == token.MUL {
						if s := addrPath(x.X, 0); s != "" && written[s] && !l.accumLoad(x) && !l.elem[x.X] {
							o = true
						}
					}
				case *ssa.IndexAddr:
					// the element a slice in map order has at the index
					if index != nil && x.Index == index {
						e, o = true, false
					}
				case *ssa.Phi:
					if l.own[v] {
						o = true
					}
				}
				if l.own[v] {
					o = true
				}
				if e != l.elem[v] || o != l.ord[v] {
					l.elem[v], l.ord[v] = e, o
					changed = true
				}
			}
		}
	}
	// what is added to an accumulator must not come from another one
	for phi, k := range l.accs {
		if k == uNone || k == uBad || k == uConst {
			continue
		}
		for v := range l.own {
			in, ok := v.(ssa.Instruction)
			if !ok || v == phi || !l.reaches(phi, v, map[ssa.Value]bool{}) {
				continue
			}
			if _, isPhi := v.(*ssa.Phi); isPhi {
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op == nil || l.reaches(phi, *op, map[ssa.Value]bool{}) {
					continue
				}
				o := l.ord[*op]
				if sl, ok := (*op).(*ssa.Slice); ok {
					if al, ok := sl.X.(*ssa.Alloc); ok && l.holdsOrd(al) {
						o = true
					}
				}
				if o {
					l.bad(v.Pos(), "what is added for an element of a map depends on the elements that came before it")
				}
			}
		}
	}
	effects := false
	for _, b := range blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if l.freshAddr(x.Addr) {
					continue
				}
				effects = true
				l.store(x)
			case *ssa.MapUpdate:
				if l.freshAddr(x.Map) {
					continue
				}
				effects = true
				l.mapUpdate(x)
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				l.bad(in.Pos(), "something is sent, started or deferred once per element of a map, in the order of the map")
			case ssa.CallInstruction:
				if l.call(x) {
					effects = true
				}
			case *ssa.If:
				if l.ord[x.Cond] && !l.own[x.Cond] && !l.boundsOnly(x, index) {
					l.bad(x.Cond.Pos(), "what happens with an element of a map depends on the elements that came before it")
				}
			case *ssa.Return:
				for _, r := range x.Results {
					if l.elem[r] || l.ord[r] {
						l.bad(x.Pos(), "the element of a map that happens to come first decides what is returned")
					} else if l.inside(r) {
						l.bad(x.Pos(), "what is returned from within the loop over a map depends on its order")
					}
				}
				if len(l.hs) > 0 || effects {
					l.bad(x.Pos(), "the loop over a map is left early, after some of its elements have had an effect")
				}
			}
		}
	}
	// left early by break
	if l.head != nil {
		for _, b := range blocks {
			if b == l.head {
				continue
			}
			for _, s := range b.Succs {
				if l.in(s) || panics(s) {
					continue
				}
				if returnsOnly(s) {
					continue
				}
				for phi, k := range l.accs {
					if k != uNone && k != uConst && usedOutside(l, phi) {
						l.bad(phi.Pos(), "the loop over a map is left early: what was collected until then depends on the order of the map")
					}
				}
				if effects {
					l.bad(l.head.Instrs[0].Pos(), "the loop over a map is left early, after some of its elements have had an effect")
				}
			}
		}
	}
}

func panics(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

func returnsOnly(b *ssa.BasicBlock) bool {
	r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(b.Instrs) != 1 {
		return false
	}
	for _, v := range r.Results {
		if _, ok := v.(*ssa.Const); !ok {
			return false
		}
	}
	return true
}

// holdsOrd: something that depends on the order was put into the cell.
func (l *loopCtx) holdsOrd(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == al && l.ord[x.Val] {
				return true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			v := x.(ssa.Value)
			for _, q := range *v.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == v && l.ord[st.Val] {
					return true
				}
			}
		}
	}
	return false
}

// boundsOnly: the branch is the test that ends a loop over a slice.
func (l *loopCtx) boundsOnly(x *ssa.If, index *ssa.Phi) bool {
	if index == nil {
		return false
	}
	b, ok := x.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	isIdx := func(v ssa.Value) bool {
		if v == index {
			return true
		}
		bo, ok := v.(*ssa.BinOp)
		return ok && bo.X == index
	}
	return isIdx(b.X) || isIdx(b.Y)
}

func usedOutside(l *loopCtx, v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if !l.in(r.Block()) {
			if _, ok := r.(*ssa.DebugRef); !ok {
				return true
			}
		}
	}
	return false
}

// freshAddr: the address lies in an object made in this iteration, or (in a
// called function) in one of its own.
func (l *loopCtx) freshAddr(a ssa.Value) bool { return l.fresh(a, map[ssa.Value]bool{}) }

func (l *loopCtx) fresh(a ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[a] {
		return true
	}
	seen[a] = true
	for d := 0; d < 10; d++ {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		case *ssa.ChangeType:
			a = x.X
		case *ssa.MakeInterface:
			a = x.X
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return l.inside(a)
		case *ssa.Phi:
			if !l.inside(x) {
				return false
			}
			if _, acc := l.accs[x]; acc {
				return false
			}
			for _, e := range x.Edges {
				if !l.fresh(e, seen) {
					return false
				}
			}
			return true
		case *ssa.UnOp:
			// a pointer held in a fresh object counts as fresh only when the
			// object is a plain local cell
			if al, ok := x.X.(*ssa.Alloc); ok && l.inside(al) {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == al && !l.fresh(st.Val, seen) {
						return false
					}
				}
				return true
			}
			return false
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				a = x.Call.Args[0]
				continue
			}
			return l.inside(x) && freshResult(l.o.p, x, 0)
		case *ssa.Const:
			return true
		default:
			return l.mine[a]
		}
	}
	return false
}

// freshResult: the call returns an object it has made.
func freshResult(p *Program, call *ssa.Call, d int) bool {
	g := staticCallee(&call.Call)
	if g == nil || len(g.Blocks) == 0 || d > 3 {
		return false
	}
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(r.Results) == 0 {
				return false
			}
			switch x := r.Results[0].(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			case *ssa.Call:
				if !freshResult(p, x, d+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func (l *loopCtx) invariant(v ssa.Value) bool {
	if _, ok := v.(*ssa.Const); ok {
		return true
	}
	if l.head == nil {
		// in a called function everything is computed anew; a value that does
		// not depend on the element only is an invariant when it is a constant
		return constLike(v, 0)
	}
	return !l.inside(v) || constLike(v, 0)
}

func constLike(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.ChangeType:
		return constLike(x.X, d+1)
	case *ssa.Convert:
		return constLike(x.X, d+1)
	case *ssa.MakeInterface:
		return constLike(x.X, d+1)
	case *ssa.UnOp:
		// the zero value of an empty struct
		if st, ok := x.Type().Underlying().(*types.Struct); ok && st.NumFields() == 0 {
			return true
		}
	case *ssa.Phi:
		return false
	}
	if st, ok := v.Type().Underlying().(*types.Struct); ok && st.NumFields() == 0 {
		return true
	}
	return false
}

// accumLookup: m[k] read to be written back as m[k] + x.
func (l *loopCtx) accumLookup(x *ssa.Lookup) bool {
	for _, b := range l.f.Blocks {
		if !l.in(b) {
			continue
		}
		for _, in := range b.Instrs {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || addrPath(mu.Map, 0) != addrPath(x.X, 0) {
				continue
			}
			if mu.Key == x.Index {
				return true
			}
		}
	}
	return false
}

// accumLoad: *a read to be written back as *a + x.
func (l *loopCtx) accumLoad(x *ssa.UnOp) bool {
	for _, r := range *x.Referrers() {
		switch y := r.(type) {
		case *ssa.BinOp:
			if l.accumStoreOf(y, x) {
				continue
			}
			return false
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && l.accumStoreOf(y, x) {
				continue
			}
			return false
		case *ssa.IndexAddr:
			// filling *a[i]
			continue
		case *ssa.DebugRef:
			continue
		default:
			return false
		}
	}
	return true
}

func (l *loopCtx) accumStoreOf(v ssa.Value, load *ssa.UnOp) bool {
	want := addrPath(load.X, 0)
	for _, r := range *v.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Val == v && addrPath(st.Addr, 0) == want {
			return true
		}
	}
	return false
}

func (l *loopCtx) store(x *ssa.Store) {
	// filling a slice through a counter
	if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
		if _, isArr := deref(ia.X.Type()).Underlying().(*types.Array); !isArr {
			if l.ord[ia.Index] || l.counterLoad(ia.Index) {
				if l.ord[x.Val] {
					l.bad(x.Pos(), "what is stored depends on the elements of the map that came before")
					return
				}
				l.heap(ia.X)
				return
			}
		}
		if l.elem[ia.Index] && !l.ord[ia.Index] || l.elem[ia.X] {
			if l.ord[x.Val] {
				l.bad(x.Pos(), "what is stored for an element of a map depends on the elements that came before it")
			}
			return
		}
	}
	if l.invariant(x.Val) {
		return
	}
	if l.elem[x.Addr] && !l.ord[x.Val] {
		return // a place that belongs to the element
	}
	want := addrPath(x.Addr, 0)
	switch v := x.Val.(type) {
	case *ssa.BinOp:
		for i, y := range []ssa.Value{v.X, v.Y} {
			u, ok := y.(*ssa.UnOp)
			if !ok || u.Op != token.MUL || want == "" || addrPath(u.X, 0) != want {
				continue
			}
			b, isBasic := v.Type().Underlying().(*types.Basic)
			if !isBasic || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
				break
			}
			switch v.Op {
			case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
				return
			case token.SUB:
				if i == 0 {
					return
				}
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if u, ok := v.Call.Args[0].(*ssa.UnOp); ok && want != "" && addrPath(u.X, 0) == want {
				if fv, ok := x.Addr.(*ssa.FreeVar); ok && l.head == nil {
					l.fvs = append(l.fvs, fv)
					return
				}
				if l.head == nil {
					l.bad(x.Pos(), "a list is extended in the order of a map")
					return
				}
				l.heapAddr(x.Addr)
				return
			}
		}
	}
	l.bad(x.Pos(), "the last element of a map decides what is stored")
}

func (l *loopCtx) counterLoad(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.MUL && l.ord[u]
}

// heap records a slice that is filled in the order of the map.
func (l *loopCtx) heap(v ssa.Value) {
	if l.head == nil {
		l.bad(v.Pos(), "a slice is filled in the order of a map")
		return
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		l.heapAddr(u.X)
		return
	}
	h := &heap16{f: l.f, vals: map[ssa.Value]bool{v: true}, addrs: map[string]bool{}, what: "slice"}
	l.addHeap(h)
}

func (l *loopCtx) heapAddr(a ssa.Value) {
	h := &heap16{f: l.f, vals: map[ssa.Value]bool{}, addrs: map[string]bool{addrPath(a, 0): true}, what: "field"}
	if fa, ok := a.(*ssa.FieldAddr); ok {
		h.what = fieldKey(fa.X.Type(), fa.Field)
	}
	l.addHeap(h)
}

func (l *loopCtx) addHeap(h *heap16) {
	h.from = l.head
	for _, g := range l.hs {
		for v := range h.vals {
			if g.vals[v] {
				return
			}
		}
		for a := range h.addrs {
			if g.addrs[a] {
				return
			}
		}
	}
	l.hs = append(l.hs, h)
}

func (l *loopCtx) mapUpdate(x *ssa.MapUpdate) {
	if l.ord[x.Value] && !l.accumValue(x) {
		l.bad(x.Pos(), "what is stored under a key depends on the elements of the map that came before")
		return
	}
	if l.elem[x.Key] && !l.ord[x.Key] || l.elem[x.Map] {
		return
	}
	if l.invariant(x.Value) {
		return
	}
	if l.accumValue(x) {
		return
	}
	l.bad(x.Pos(), "the last element of a map decides what is stored under a key")
}

// accumValue: m[k] = m[k] + x with numbers.
func (l *loopCtx) accumValue(x *ssa.MapUpdate) bool {
	b, ok := x.Value.(*ssa.BinOp)
	if !ok || b.Op != token.ADD && b.Op != token.OR {
		return false
	}
	for _, y := range []ssa.Value{b.X, b.Y} {
		if e, ok := y.(*ssa.Extract); ok && e.Index == 0 {
			y = e.Tuple
		}
		if lk, ok := y.(*ssa.Lookup); ok && addrPath(lk.X, 0) == addrPath(x.Map, 0) && lk.Index == x.Key {
			if bt, ok := b.Type().Underlying().(*types.Basic); ok && bt.Info()&(types.IsInteger|types.IsBoolean) != 0 {
				return true
			}
		}
	}
	return false
}

// liveOut: what the loop leaves behind in local variables.
func (l *loopCtx) liveOut() {
	for _, b := range l.f.Blocks {
		if !l.in(b) {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil || !usedOutside(l, v) {
				continue
			}
			if phi, ok := v.(*ssa.Phi); ok {
				if k, isAcc := l.accs[phi]; isAcc {
					l.accOut(phi, v, k)
					continue
				}
			}
			if _, ok := v.(*ssa.Next); ok {
				continue
			}
			// a value of an update chain that leaves by a break
			acc := false
			for phi, k := range l.accs {
				if l.own[v] && l.reaches(phi, v, map[ssa.Value]bool{}) {
					l.accOut(phi, v, k)
					acc = true
				}
			}
			if acc {
				continue
			}
			if l.elem[v] || l.ord[v] {
				l.bad(v.Pos(), "an element of a map is used after the loop: which one depends on the order")
			}
		}
	}
}

func (l *loopCtx) accOut(phi *ssa.Phi, v ssa.Value, k updKind) {
	switch k {
	case uBad:
		l.bad(phi.Pos(), "%s after the loop depends on the order of the map", nameOf(phi))
	case uAppend:
		l.addHeap(&heap16{f: l.f, vals: map[ssa.Value]bool{v: true}, addrs: map[string]bool{}, what: "slice"})
	}
}

func nameOf(phi *ssa.Phi) string {
	if phi.Comment != "" {
		return phi.Comment
	}
	return "a variable"
}

// readsOnly: no implementation of the method writes anything.
func (o *ordAn) readsOnly(c *ssa.CallCommon) bool {
	gs := o.p.implementations(c)
	for _, g := range gs {
		if len(o.p.mods().Of(g)) > 0 {
			return false
		}
	}
	return len(gs) > 0
}

// call judges a call made once per element; it reports whether the call has
// an effect beyond its result.
func (l *loopCtx) call(ci ssa.CallInstruction) bool {
	c := ci.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			v, _ := ci.(*ssa.Call)
			if v == nil || l.own[v] || l.freshAddr(c.Args[0]) {
				return false
			}
			if st := storedTo(v); st != nil {
				return false // judged at the store
			}
			if _, ok := c.Args[0].(*ssa.Const); ok {
				return false
			}
			// copied from something outside: the result is judged where it goes
			return false
		case "copy", "clear":
			if !l.freshAddr(c.Args[0]) {
				l.bad(ci.Pos(), "a shared slice is overwritten once per element of a map")
				return true
			}
		case "delete":
			return true
		case "print", "println":
			l.bad(ci.Pos(), "elements of a map are printed in its order")
			return true
		}
		return false
	}
	for _, a := range c.Args {
		if l.ord[a] && !l.elem[a] {
			if _, slice := a.Type().Underlying().(*types.Slice); slice {
				continue
			}
			l.bad(ci.Pos(), "a call gets something that depends on the elements of the map that came before")
			return true
		}
	}
	if c.IsInvoke() {
		if isNamed(c.Value.Type(), "formula", "Factory") {
			n := c.Method.Name()
			switch {
			case l.o.readsOnly(c):
				return false
			case n == "Var" || n == "Variable" || n == "Lit" || n == "Literal":
				if l.knownName(c.Args[0], 0) {
					return false
				}
			}
			l.bad(ci.Pos(), "formulas are created in the order of a map (%s): their numbers, and with them the order of sets and operands, differ from run to run", n)
			return true
		}
		if pk := c.Method.Pkg(); pk == nil || !strings.HasPrefix(pk.Path(), modPath) {
			if readOnlyMethod(c.Method.Name()) {
				return false
			}
			l.bad(ci.Pos(), "%s is called once per element, in the order of the map", c.Method.Name())
			return true
		}
		eff := false
		for _, g := range l.o.p.implementations(c) {
			if l.calls(ci, g, append([]ssa.Value{c.Value}, c.Args...)) {
				eff = true
			}
		}
		return eff
	}
	g := staticCallee(c)
	if g == nil {
		gs := l.o.p.Targets(c)
		if len(gs) == 0 {
			l.o.c.Ok("map-order", rel(l.f)+" (a function value is called per element: not followed)", l.o.p.pos(ci.Pos()))
			return false
		}
		eff := false
		for _, g := range gs {
			if l.calls(ci, g, c.Args) {
				eff = true
			}
		}
		return eff
	}
	return l.calls(ci, g, c.Args)
}

func storedTo(v ssa.Value) *ssa.Store {
	for _, r := range *v.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Val == v {
			return st
		}
	}
	return nil
}

func readOnlyMethod(n string) bool {
	switch n {
	case "String", "Error", "Len", "Less", "Size", "Contains", "Get", "Empty":
		return true
	}
	return false
}

// knownName: a name that the factory already has.
func (l *loopCtx) knownName(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Extract:
		return l.knownName(x.Tuple, d+1)
	case *ssa.Next:
		return true
	case *ssa.Lookup:
		return true
	case *ssa.Call:
		n := ""
		if x.Call.IsInvoke() {
			n = x.Call.Method.Name()
		} else if g := staticCallee(&x.Call); g != nil {
			n = g.Name()
		}
		return n == "VarName" || n == "LitNamePhase" || n == "Name"
	case *ssa.UnOp:
		return true
	case *ssa.Parameter:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !l.knownName(e, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// calls judges a callee that is run once per element.
func (l *loopCtx) calls(ci ssa.CallInstruction, g *ssa.Function, args []ssa.Value) bool {
	if pk := pkgOf(g); pk == nil || !inModule(g) {
		return l.extern(ci, g, args)
	}
	if len(g.Blocks) == 0 {
		return false
	}
	if l.depth > 6 {
		return false
	}
	mask := ""
	for i := range g.Params {
		if i < len(args) && pointerLike(args[i].Type()) && l.freshAddr(args[i]) {
			mask += "f"
		} else if i < len(args) && l.elem[args[i]] {
			mask += "e"
		} else {
			mask += "-"
		}
	}
	key := fmt.Sprintf("%p %s", g, mask)
	ps, done := l.o.eff[key]
	if !done {
		l.o.eff[key] = nil
		m := &loopCtx{o: l.o, f: g, in: func(*ssa.BasicBlock) bool { return true }, elem: map[ssa.Value]bool{}, ord: map[ssa.Value]bool{},
			accs: map[*ssa.Phi]updKind{}, own: map[ssa.Value]bool{}, fills: map[*ssa.IndexAddr]bool{}, cst: map[*ssa.Phi]string{}, mine: map[ssa.Value]bool{}, depth: l.depth + 1}
		for i, prm := range g.Params {
			m.elem[prm] = mask[i] != '-'
			if mask[i] == 'f' {
				m.mine[prm] = true
			}
		}
		m.calleeBody()
		ps = m.ps
		for _, fv := range m.fvs {
			a := bindingOf(fv)
			switch {
			case a == nil || a.Parent() != l.f:
				ps = append(ps, problem{fv.Pos(), "a list is extended in the order of a map"})
			case l.head == nil:
				ps = append(ps, problem{fv.Pos(), "a list is extended in the order of a map"})
			default:
				l.heapAddr(a)
			}
		}
		l.o.eff[key] = ps
	}
	for _, q := range ps {
		l.bad(ci.Pos(), "%s is called in the order of a map: %s", rel(g), q.msg)
	}
	return len(l.o.p.mods().Of(g)) > 0
}

// calleeBody: effects of a function that is run once per element.
func (l *loopCtx) calleeBody() {
	for _, b := range l.f.Blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			_ = v
		}
	}
	for changed := true; changed; {
		changed = false
		for _, b := range l.f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || l.elem[v] {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && l.elem[*op] {
						l.elem[v] = true
						changed = true
					}
				}
			}
		}
	}
	for _, b := range l.f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !l.freshAddr(x.Addr) {
					l.store(x)
				}
			case *ssa.MapUpdate:
				if !l.freshAddr(x.Map) {
					l.mapUpdate(x)
				}
			case ssa.CallInstruction:
				l.call(x)
			}
		}
	}
}

// extern: library functions.
func (l *loopCtx) extern(ci ssa.CallInstruction, g *ssa.Function, args []ssa.Value) bool {
	n := g.String()
	pk := ""
	if pkgOf(g) != nil {
		pk = pkgOf(g).Path()
	}
	fresh := len(args) > 0 && l.freshAddr(args[0])
	switch {
	case strings.Contains(n, "strings.Builder") || strings.Contains(n, "bytes.Buffer") || strings.Contains(n, "bufio.Writer"):
		if g.Signature.Recv() != nil && (strings.HasPrefix(g.Name(), "Write") || g.Name() == "ReadFrom") && !fresh {
			l.bad(ci.Pos(), "text is written in the order of a map")
			return true
		}
		return false
	case strings.HasPrefix(g.Name(), "Fprint") && fresh:
		return false
	case strings.HasPrefix(g.Name(), "Fprint") || strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "log."):
		l.bad(ci.Pos(), "text is written in the order of a map")
		return true
	case pk == "math/rand" || pk == "math/rand/v2":
		l.bad(ci.Pos(), "a random number is drawn per element, in the order of the map")
		return true
	case strings.HasPrefix(pk, "github.com/emirpasic/gods"):
		switch g.Name() {
		case "Add", "Put", "Append", "Push", "Enqueue", "Insert", "Prepend", "Set":
			if fresh {
				return true
			}
			if strings.Contains(n, "linkedhash") || strings.Contains(n, "list.List") || strings.Contains(n, "stack") || strings.Contains(n, "queue") {
				l.bad(ci.Pos(), "a list or linked set is filled in the order of a map")
			}
			return true
		}
		return false
	}
	return false
}

// settle follows a slice in map order from where it was filled: it has to be
// sorted before it is looked at.
func (o *ordAn) settle(h *heap16, pos token.Pos) (ps []problem, escapes bool) {
	var roots []ssa.Instruction
	for v := range h.vals {
		if in, ok := v.(ssa.Instruction); ok {
			roots = append(roots, in)
		}
	}
	h.close()
	f := h.f
	bad := func(at token.Pos, format string, args ...any) {
		ps = append(ps, problem{at, fmt.Sprintf(format, args...)})
	}
	isH := func(v ssa.Value) bool {
		if h.vals[v] {
			return true
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if s := addrPath(u.X, 0); s != "" && h.addrs[s] {
				return true
			}
		}
		return false
	}
	sorts := map[ssa.Instruction]bool{}
	starts := []ssa.Instruction{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if i, cmp := sortCall(ci); i >= 0 && isH(ci.Common().Args[i]) {
					sorts[in] = true
					o.total(ci, cmp)
				} else if g := staticCallee(ci.Common()); g != nil && inModule(g) {
					for j, a := range ci.Common().Args {
						if isH(a) && o.sortsParam(g, j) {
							sorts[in] = true
						}
					}
				}
			}
		}
	}
	if h.from != nil {
		starts = append(starts, h.from.Instrs[0])
	} else {
		starts = roots
	}
	sort.Slice(starts, func(i, j int) bool { return starts[i].Pos() < starts[j].Pos() })
	outlives := false
	for a := range h.addrs {
		if !localAddr(f, a) {
			outlives = true
		}
	}
	// forward from the places where it is filled
	type at struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[at]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		if seen[at{b, i}] {
			return
		}
		seen[at{b, i}] = true
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if sorts[in] {
				return
			}
			if m := o.looksAt(in, isH, h); m != "" {
				if m == "return" {
					if exported(f) || f.Parent() != nil {
						bad(in.Pos(), "a slice is returned in the order of a map: it differs from run to run")
					}
					escapes = true
				} else {
					bad(in.Pos(), "%s", m)
				}
				return
			}
			if _, ok := in.(*ssa.Return); ok && outlives {
				bad(in.Pos(), "%s is left in the order of a map", h.what)
				return
			}
		}
		for _, s := range b.Succs {
			walk(s, 0)
		}
	}
	for _, s := range starts {
		for i, in := range s.Block().Instrs {
			if in == s {
				walk(s.Block(), i+1)
			}
		}
	}
	return ps, escapes
}

func localAddr(f *ssa.Function, path string) bool {
	for _, l := range f.Locals {
		if path == fmt.Sprintf("%s@%p", l.Name(), ssa.Value(l)) {
			return true
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if l, ok := in.(*ssa.Alloc); ok && path == fmt.Sprintf("%s@%p", l.Name(), ssa.Value(l)) {
				return true
			}
		}
	}
	return false
}

// close extends the set of values and addresses that hold the slice.
func (h *heap16) close() {
	for changed := true; changed; {
		changed = false
		add := func(v ssa.Value) {
			if !h.vals[v] {
				h.vals[v] = true
				changed = true
			}
		}
		for _, b := range h.f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Phi:
					for _, e := range x.Edges {
						if h.vals[e] {
							add(x)
						}
					}
				case *ssa.Slice:
					if h.vals[x.X] {
						add(x)
					}
				case *ssa.ChangeType:
					if h.vals[x.X] {
						add(x)
					}
				case *ssa.MakeInterface:
					if h.vals[x.X] {
						add(x)
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && h.addrs[addrPath(x.X, 0)] {
						add(x)
					}
				case *ssa.Store:
					if h.vals[x.Val] {
						if s := addrPath(x.Addr, 0); s != "" && !h.addrs[s] {
							if _, ok := x.Addr.(*ssa.IndexAddr); !ok {
								h.addrs[s] = true
								changed = true
							}
						}
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						for _, a := range x.Call.Args {
							if h.vals[a] {
								add(x)
							}
						}
					}
					if g := x.Call.StaticCallee(); g != nil {
						if og := g.Origin(); og != nil {
							g = og
						}
						switch g.String() {
						case "slices.Collect", "slices.Clone", "slices.Concat":
							for _, a := range x.Call.Args {
								if h.vals[a] {
									add(x)
								}
							}
						}
					}
				}
			}
		}
	}
}

// orderFree fields: who reads them does not depend on the order of their
// elements (confirmed by reading their consumers).
var orderFreeFields = map[string]string{
	"dnnf.graph.edgeList": "getMinFillOrdering looks at all pairs of neighbours and only counts and marks them",
}

// looksAt: the instruction uses the slice in a way that shows its order.
func (o *ordAn) looksAt(in ssa.Instruction, isH func(ssa.Value) bool, h *heap16) string {
	switch x := in.(type) {
	case *ssa.Return:
		for _, r := range x.Results {
			if isH(r) {
				return "return"
			}
		}
	case *ssa.Store:
		if isH(x.Val) {
			if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
				if k, _ := valueFieldKey(ia.X, 0); orderFreeFields[k] != "" {
					return ""
				}
				return "a slice is stored in the order of a map"
			}
			if k, _ := addrFieldKey(x.Addr, 0); orderFreeFields[k] != "" {
				return ""
			}
		}
	case *ssa.MapUpdate:
		if isH(x.Value) {
			return "a slice is stored in the order of a map"
		}
	case *ssa.Index:
		if isH(x.X) {
			return "an element of a slice in map order is read"
		}
	case *ssa.IndexAddr:
		if isH(x.X) {
			for _, r := range *x.Referrers() {
				if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
					if o.orderFreeLoop(x) {
						continue
					}
					return "the elements of a slice in map order are read before it is sorted"
				}
			}
		}
	case *ssa.MakeClosure:
		return ""
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			if b.Name() == "copy" && len(c.Args) > 1 && isH(c.Args[1]) {
				return "a slice in map order is copied"
			}
			return ""
		}
		for i, a := range c.Args {
			if !isH(a) {
				continue
			}
			g := staticCallee(c)
			if g == nil {
				return "a slice in map order is handed on"
			}
			if og := g.Origin(); og != nil {
				g = og
			}
			switch g.String() {
			case "slices.Collect", "slices.Clone", "slices.Concat", "slices.Contains", "slices.Max", "slices.Min", "slices.Sorted", "slices.Values":
				return ""
			}
			if inModule(g) && o.orderFreeParam(g, i, 0) {
				continue
			}
			return fmt.Sprintf("a slice in map order is handed to %s", g.Name())
		}
	}
	return ""
}

// orderFreeLoop: the read of an element belongs to a loop over the whole slice
// whose body does not care about the order.
func (o *ordAn) orderFreeLoop(x *ssa.IndexAddr) bool {
	f := x.Parent()
	var best map[*ssa.BasicBlock]bool
	var head *ssa.BasicBlock
	for h, body := range naturalLoops(f) {
		if body[x.Block()] && (best == nil || len(body) < len(best)) {
			best, head = body, h
		}
	}
	if best == nil {
		return false
	}
	idx := x.Index
	var phi *ssa.Phi
	switch y := idx.(type) {
	case *ssa.Phi:
		phi = y
	case *ssa.BinOp:
		phi, _ = y.X.(*ssa.Phi)
	}
	if phi == nil || phi.Block() != head {
		return false
	}
	ps, hs := o.loop(f, head, best, map[ssa.Value]bool{x: true}, phi)
	if len(ps) > 0 {
		return false
	}
	for _, h := range hs {
		q, esc := o.settle(h, x.Pos())
		if len(q) > 0 || esc {
			return false
		}
	}
	return true
}

// orderFreeParam: the function does the same whatever the order of the slice.
func (o *ordAn) orderFreeParam(g *ssa.Function, i, d int) bool {
	if d > 3 || i >= len(g.Params) || len(g.Blocks) == 0 {
		return false
	}
	h := &heap16{f: g, vals: map[ssa.Value]bool{g.Params[i]: true}, addrs: map[string]bool{}, what: "argument"}
	h.close()
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if j, _ := sortCall(ci); j >= 0 && h.vals[ci.Common().Args[j]] {
					return false
				}
			}
			switch x := in.(type) {
			case *ssa.Store:
				if h.vals[x.Val] {
					return false
				}
			case *ssa.MakeInterface:
				if h.vals[x.X] {
					return false
				}
			}
			if m := o.looksAt(in, func(v ssa.Value) bool { return h.vals[v] }, h); m != "" {
				return false
			}
		}
	}
	return true
}

// sortCall: which argument a call sorts, and its comparator.
func sortCall(ci ssa.CallInstruction) (int, ssa.Value) {
	g := ci.Common().StaticCallee()
	if g == nil {
		return -1, nil
	}
	if o := g.Origin(); o != nil {
		g = o
	}
	a := ci.Common().Args
	switch g.String() {
	case "slices.Sort", "sort.Ints", "sort.Strings", "sort.Float64s":
		return 0, nil
	case "slices.SortFunc", "slices.SortStableFunc", "sort.Slice", "sort.SliceStable":
		return 0, a[1]
	case "sort.Sort", "sort.Stable":
		return 0, nil
	case "slices.Sorted":
		return 0, nil
	case "slices.SortedFunc", "slices.SortedStableFunc":
		return 0, a[1]
	}
	return -1, nil
}

// sortsParam: a function of the module that sorts its argument first.
func (o *ordAn) sortsParam(g *ssa.Function, j int) bool {
	if j >= len(g.Params) || len(g.Blocks) == 0 {
		return false
	}
	for _, in := range g.Blocks[0].Instrs {
		if ci, ok := in.(ssa.CallInstruction); ok {
			if i, cmp := sortCall(ci); i >= 0 {
				a := ci.Common().Args[i]
				if m, ok := a.(*ssa.MakeInterface); ok {
					a = m.X
				}
				if a == g.Params[j] {
					o.total(ci, cmp)
					return true
				}
			}
		}
	}
	return false
}

// total: the comparator compares the elements themselves (or something that
// tells them apart) when everything else is equal.
func (o *ordAn) total(ci ssa.CallInstruction, cmp ssa.Value) {
	if cmp == nil {
		return
	}
	key := rel(ci.Parent()) + " comparator"
	var g *ssa.Function
	switch x := cmp.(type) {
	case *ssa.MakeClosure:
		g, _ = x.Fn.(*ssa.Function)
	case *ssa.Function:
		g = x
	case *ssa.ChangeType:
		g, _ = x.X.(*ssa.Function)
	}
	if g == nil || len(g.Blocks) == 0 {
		o.c.Ok("total-order", key+" (not followed)", o.p.pos(ci.Pos()))
		return
	}
	o.c.Cond(o.tells(g), "total-order", key, o.p.pos(g.Pos()), "the comparator can find two different elements equal: their order is that of the map")
}

// tells: on the path on which all comparisons tie, something injective in the
// element decides.
func (o *ordAn) tells(g *ssa.Function) bool {
	if len(g.Params) < 2 {
		return true
	}
	n := len(g.Params)
	a, b := ssa.Value(g.Params[n-2]), ssa.Value(g.Params[n-1])
	inj := func(x, y ssa.Value) bool {
		sx, okx := injective(o.p, x, a, 0)
		sy, oky := injective(o.p, y, b, 0)
		if okx && oky && sx == sy {
			return true
		}
		sx, okx = injective(o.p, x, b, 0)
		sy, oky = injective(o.p, y, a, 0)
		return okx && oky && sx == sy
	}
	for _, bl := range g.Blocks {
		for _, in := range bl.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.SUB, token.LSS, token.GTR, token.LEQ, token.GEQ:
					if inj(x.X, x.Y) {
						return true
					}
				}
			case *ssa.Call:
				if len(x.Call.Args) >= 2 {
					if h := x.Call.StaticCallee(); h != nil {
						nm := h.Name()
						if og := h.Origin(); og != nil {
							nm = og.Name()
						}
						if nm == "Compare" && inj(x.Call.Args[len(x.Call.Args)-2], x.Call.Args[len(x.Call.Args)-1]) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// injective: v is computed from the parameter p by steps that keep different
// elements apart; the shape names the steps.
func injective(p *Program, v, prm ssa.Value, d int) (string, bool) {
	if d > 8 {
		return "", false
	}
	if v == prm {
		return "", true
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return injective(p, x.X, prm, d+1)
	case *ssa.ChangeType:
		return injective(p, x.X, prm, d+1)
	case *ssa.Field:
		s, ok := injective(p, x.X, prm, d+1)
		t := structOf(x.X.Type())
		return s + fmt.Sprintf(".%d", x.Field), ok && t != nil && !isCount(t.Field(x.Field).Type())
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch y := x.X.(type) {
			case *ssa.FieldAddr:
				s, ok := injective(p, y.X, prm, d+1)
				t := structOf(deref(y.X.Type()))
				return s + fmt.Sprintf(".%d", y.Field), ok && t != nil && !isCount(t.Field(y.Field).Type())
			case *ssa.IndexAddr:
				// less(i, j): the element at the index
				s, ok := injective(p, y.Index, prm, d+1)
				return s + "[]", ok
			case *ssa.Alloc:
				// a parameter kept in a cell
				var val ssa.Value
				for _, r := range *y.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == y {
						if val != nil {
							return "", false
						}
						val = st.Val
					}
				}
				if val != nil {
					return injective(p, val, prm, d+1)
				}
			}
		}
	case *ssa.Alloc:
		var val ssa.Value
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == x {
				if val != nil {
					return "", false
				}
				val = st.Val
			}
		}
		if val != nil {
			return injective(p, val, prm, d+1)
		}
	case *ssa.Extract:
		s, ok := injective(p, x.Tuple, prm, d+1)
		return s + fmt.Sprintf("#%d", x.Index), ok && x.Index == 0
	case *ssa.Call:
		n := ""
		var args []ssa.Value
		if x.Call.IsInvoke() {
			n = x.Call.Method.Name()
			args = append([]ssa.Value{x.Call.Value}, x.Call.Args...)
		} else if g := x.Call.StaticCallee(); g != nil {
			n = g.Name()
			args = x.Call.Args
		}
		switch n {
		case "VarName", "LitNamePhase", "ID", "AsFormula", "AsLiteral", "Variable", "Sprint", "Formula":
			for _, a := range args {
				if s, ok := injective(p, a, prm, d+1); ok {
					return s + ":" + n, true
				}
			}
		}
	}
	return "", false
}

// isCount: a plain number that different elements may share.
func isCount(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.Named); ok {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// random numbers and the clock.
func (o *ordAn) random() {
	p, c := o.p, o.c
	cnt := map[string]int{}
	conc := 0
	for _, f := range p.Funcs {
		pk := shortPkg(pkgOf(f))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.Go, *ssa.Select:
					if pk != "handler" {
						conc++
						c.Bad("no-concurrency", rel(f), p.pos(in.Pos()), "a part of a computation runs concurrently: what it does depends on the scheduler")
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || pkgOf(g) == nil {
					continue
				}
				path := pkgOf(g).Path()
				switch path {
				case "math/rand", "math/rand/v2":
					key := rel(f) + " " + g.Name()
					cnt[key]++
					if cnt[key] > 1 {
						key = fmt.Sprintf("%s #%d", key, cnt[key])
					}
					switch {
					case pk == "randomizer" && g.Name() == "NewSource":
						k, _ := valueFieldKey(ci.Common().Args[0], 0)
						c.Cond(k == "randomizer.Config.Seed", "random", key, p.pos(ci.Pos()), "the source of random numbers is not made from the seed of the configuration")
					case pk == "randomizer" && g.Name() == "New":
						c.Cond(o.fromNewSource(ci.Common().Args[0], 0), "random", key, p.pos(ci.Pos()), "the generator does not draw from the seeded source")
					case pk == "randomizer" && g.Signature.Recv() != nil && g.Name() != "Seed":
						k, _ := addrFieldKey(ci.Common().Args[0], 0)
						if k == "" {
							k, _ = valueFieldKey(ci.Common().Args[0], 0)
						}
						c.Cond(k == "randomizer.FormulaRandomizer.random" || k == "", "random", key, p.pos(ci.Pos()), "the random number does not come from the generator of the randomizer")
					case pk == "bdd" && o.onlyBehind(f, "Random"):
						c.Ok("random", key+" (the random reordering)", p.pos(ci.Pos()))
					case pk == "bdd" && o.onlyPrimality(f):
						c.Ok("random", key+" (a base of a primality test)", p.pos(ci.Pos()))
					default:
						c.Bad("random", key, p.pos(ci.Pos()), "the result depends on a random number that no seed determines")
					}
				case "crypto/rand":
					c.Bad("random", rel(f)+" "+g.Name(), p.pos(ci.Pos()), "the result depends on a random number that no seed determines")
				case "time":
					if g.Name() == "Now" || g.Name() == "Since" || g.Name() == "Until" {
						c.Cond(pk == "handler", "clock", rel(f)+" "+g.Name(), p.pos(ci.Pos()), "the result depends on the time at which the call is made")
					}
				}
			}
		}
	}
	if conc == 0 {
		c.Ok("no-concurrency", "no go or select statement", "")
	}
}

func (o *ordAn) fromNewSource(v ssa.Value, d int) bool {
	switch x := v.(type) {
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil {
			if g.Name() == "NewSource" {
				return true
			}
			if inModule(g) && d < 3 {
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 && o.fromNewSource(r.Results[0], d+1) {
						return true
					}
				}
			}
		}
	case *ssa.MakeInterface:
		return o.fromNewSource(x.X, d+1)
	case *ssa.ChangeInterface:
		return o.fromNewSource(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !o.fromNewSource(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		return true
	}
	return false
}

// onlyBehind: the function (or all its callers) has the word in its name.
func (o *ordAn) onlyBehind(f *ssa.Function, word string) bool {
	var up func(g *ssa.Function, d int) bool
	up = func(g *ssa.Function, d int) bool {
		if strings.Contains(strings.ToLower(g.Name()), strings.ToLower(word)) && strings.Contains(strings.ToLower(g.Name()), "reorder") {
			return true
		}
		cs := o.p.callsOf(g)
		if d > 3 || len(cs) == 0 || exported(g) {
			return false
		}
		for _, c := range cs {
			if !up(c.Parent(), d+1) {
				return false
			}
		}
		return true
	}
	return up(f, 0)
}

// onlyPrimality: every way to the function leads through a test that answers
// whether a number is prime.
func (o *ordAn) onlyPrimality(f *ssa.Function) bool {
	var up func(g *ssa.Function, d int) bool
	up = func(g *ssa.Function, d int) bool {
		n := strings.ToLower(g.Name())
		if d > 0 && strings.Contains(n, "prime") {
			return true
		}
		cs := o.p.callsOf(g)
		if d > 4 || len(cs) == 0 || exported(g) {
			return false
		}
		for _, c := range cs {
			if !up(c.Parent(), d+1) {
				return false
			}
		}
		return true
	}
	return up(f, 0)
}

// shared state.
func (o *ordAn) shared() {
	p, c := o.p, o.c
	root := func(a ssa.Value) *ssa.Global {
		for d := 0; d < 12; d++ {
			switch x := a.(type) {
			case *ssa.Global:
				return x
			case *ssa.FieldAddr:
				a = x.X
			case *ssa.IndexAddr:
				a = x.X
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return nil
				}
				a = x.X
			case *ssa.Slice:
				a = x.X
			case *ssa.ChangeType:
				a = x.X
			case *ssa.TypeAssert:
				a = x.X
			case *ssa.Extract:
				a = x.Tuple
			case *ssa.Lookup:
				a = x.X
			case *ssa.Phi:
				if len(x.Edges) == 0 {
					return nil
				}
				a = x.Edges[0]
			default:
				return nil
			}
		}
		return nil
	}
	written := map[*ssa.Global][]string{}
	where := map[*ssa.Global]token.Pos{}
	mark := func(g *ssa.Global, f *ssa.Function, pos token.Pos) {
		if g == nil || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			return
		}
		if !pos.IsValid() {
			pos = f.Pos()
		}
		written[g] = append(written[g], rel(f))
		if _, ok := where[g]; !ok {
			where[g] = pos
		}
	}
	a := newAliasing(p)
	for _, f := range p.Funcs {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || generatedParser(p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					mark(root(x.Addr), f, x.Pos())
				case *ssa.MapUpdate:
					mark(root(x.Map), f, x.Pos())
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "clear", "copy":
							mark(root(cc.Args[0]), f, x.Pos())
						}
						continue
					}
					g := staticCallee(cc)
					if g == nil {
						continue
					}
					for i, arg := range cc.Args {
						gl := root(arg)
						if gl == nil || !pointerLike(arg.Type()) {
							continue
						}
						if !inModule(g) {
							if writesReceiver(g) && i == 0 {
								mark(gl, f, x.Pos())
							}
							continue
						}
						for d := 0; d < 2; d++ {
							if (&fate{a: a, app: true}).of(label{fn: g, idx: i, deep: d}) != nil {
								mark(gl, f, x.Pos())
								break
							}
						}
						if recvWrites(g, i) {
							mark(gl, f, x.Pos())
						}
					}
				}
			}
		}
	}
	// one obligation per package variable
	for _, pk := range p.Pkgs {
		sp := p.SSA.Package(pk.Types)
		if sp == nil {
			continue
		}
		var names []string
		for n, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(n, "init$") && n != "_" {
				pos := p.pos(g.Pos())
				if strings.Contains(pos, "_string.go") || strings.Contains(pos, "logicngpropositional_") {
					continue
				}
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			g := sp.Members[n].(*ssa.Global)
			ws := written[g]
			key := shortPkg(pk.Types) + "." + n
			if len(ws) == 0 {
				c.Ok("no-shared-state", key, p.pos(g.Pos()))
			} else {
				c.Bad("no-shared-state", key, p.pos(where[g]), fmt.Sprintf("the package variable is changed by %s: what one factory or solver does shows in another", ws[0]))
			}
		}
	}
	_ = constant.MakeInt64
}

func pointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice:
		return true
	}
	return false
}

// writesReceiver: library methods that change what they are called on.
func writesReceiver(g *ssa.Function) bool {
	if g.Signature.Recv() == nil {
		return false
	}
	switch g.Name() {
	case "Add", "Put", "Store", "Set", "Push", "Append", "Remove", "Clear", "LoadOrStore", "Swap", "CompareAndSwap", "Delete", "Insert", "Prepend", "Write", "WriteString":
		return true
	}
	return false
}

// recvWrites: the function stores into a field of its argument.
func recvWrites(g *ssa.Function, i int) bool {
	if i >= len(g.Params) {
		return false
	}
	prm := g.Params[i]
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == prm {
					return true
				}
				if st.Addr == prm {
					return true
				}
			}
		}
	}
	return false
}

func typeName16(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p) })
}
