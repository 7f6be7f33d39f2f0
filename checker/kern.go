package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The abstract values of the BDD kernel for the interpretation of den.go.  A
// node is abstracted to the Boolean function it denotes, to what is known of
// its kind (0, 1 or an inner node) and to the order of the levels; an inner node
// denotes "if the variable of its level then high else low".

type (
	kNode struct{ id int }
	// kLin is the number pos - neg + c, where pos and neg are levels (0: none)
	kLin struct{ pos, neg, c int }
	// kVarIx is mul * (index of the variable of a level) + add
	kVarIx struct {
		l        kLin
		mul, add int
	}
	kTerm   struct{ s string } // another number
	kSpec   struct{ name string }
	kElem   struct{ arr, key dval }
	kFld    struct{ n, f dval }
	kArr    struct{ cell int }
	kEntry  struct{ id int }
	kEntryF struct{ id, f dval }
	kCached struct{ id int }
	kPoly   struct{ m string } // a sum of products, in a canonical notation
	kBigLin struct{ l kLin }
	kIs     struct{ id, mask int }
	kNodeEq struct {
		a, b int
		neg  bool
	}
	kLe  struct{ l kLin } // l <= 0
	kEqL struct {
		l   kLin
		neg bool
	}
	kNamed struct {
		what string
		neg  bool
	}
	kSgn     struct{ s int } // +1, -1: the current variable set with a sign, 0: another number
	kVariant struct{ n int } // which of the flags
)

const (
	kZero, kOne, kInner = 1, 2, 4
	lvlTop              = 1 // the level of the constants
	nodeZero, nodeOne   = -10, -11
)

type knode struct {
	t      tt
	mask   int
	lvl    int
	lo, hi int
	lbs    []int // the level is at least one of the levels of these nodes
	cube   bool
	men    string // what a path is known to mention
}

type kst struct {
	nodes map[int]knode
	dbm   map[[2]int]int
	ne    map[kLin]bool
	latom map[kLin]tt
	lvls  int
	memo  map[string]int
	arrs  map[int]map[string]dval
	ent   map[string]dval
	reord bool // a function asked for a reordering
	still bool // reordering is disabled
	evs   []kEvent
	lins  []kLin // levels nodes were made for
	disor string // a node was made above its children
	set   string // what the variable set was filled from
}

type kEvent struct {
	what string
	id   int
	args []dval
	arr  map[string]dval
}

func (k *kst) clone() *kst {
	n := *k
	n.nodes, n.dbm, n.ne, n.latom, n.memo = cpM(k.nodes), cpM(k.dbm), cpM(k.ne), cpM(k.latom), cpM(k.memo)
	n.arrs, n.ent = map[int]map[string]dval{}, cpM(k.ent)
	for c, m := range k.arrs {
		n.arrs[c] = cpM(m)
	}
	n.evs = append([]kEvent{}, k.evs...)
	n.lins = append([]kLin{}, k.lins...)
	return &n
}

type kern struct {
	d    *den
	self *ssa.Function // the function under analysis
	kt   *types.Named
}

func newKst() *kst {
	k := &kst{nodes: map[int]knode{}, dbm: map[[2]int]int{}, ne: map[kLin]bool{}, latom: map[kLin]tt{}, lvls: lvlTop,
		memo: map[string]int{}, arrs: map[int]map[string]dval{}, ent: map[string]dval{}}
	k.nodes[nodeZero] = knode{t: ttFalse, mask: kZero, lvl: lvlTop}
	k.nodes[nodeOne] = knode{t: ttTrue, mask: kOne, lvl: lvlTop, cube: true}
	k.dbm[[2]int{0, lvlTop}] = 0
	return k
}

// ---- levels

func (k *kst) bound(a, b int) (int, bool) {
	if a == b {
		return 0, true
	}
	v, ok := k.dbm[[2]int{a, b}]
	return v, ok
}

// le: l <= n is known.
func (k *kst) le(l kLin, n int) bool {
	v, ok := k.bound(l.pos, l.neg)
	return ok && v+l.c <= n
}

func (l kLin) minus() kLin { return kLin{l.neg, l.pos, -l.c} }

// addLe: l <= 0 from now on; false: impossible.
func (k *kst) addLe(st *dst, l kLin) bool {
	if l.pos == l.neg {
		return l.c <= 0
	}
	key := [2]int{l.pos, l.neg}
	if v, ok := k.dbm[key]; !ok || -l.c < v {
		k.dbm[key] = -l.c
	}
	return k.close(st)
}

func (k *kst) close(st *dst) bool {
	for {
		n := k.lvls + 1
		for m := 0; m < n; m++ {
			for a := 0; a < n; a++ {
				x, ok := k.bound(a, m)
				if !ok || a == m {
					continue
				}
				for b := 0; b < n; b++ {
					if y, ok := k.bound(m, b); ok {
						if a == b {
							if x+y < 0 {
								return false
							}
							continue
						}
						if v, ok := k.dbm[[2]int{a, b}]; !ok || x+y < v {
							k.dbm[[2]int{a, b}] = x + y
						}
					}
				}
			}
		}
		again := false
		for l := range k.ne {
			for _, e := range []kLin{l, l.minus()} {
				if v, ok := k.bound(e.pos, e.neg); ok && v+e.c == 0 {
					if e.pos == e.neg {
						return false
					}
					k.dbm[[2]int{e.pos, e.neg}] = v - 1
					again = true
				}
			}
		}
		if !again {
			break
		}
	}
	// variables of equal levels are the same
	for a := range k.latom {
		for b := range k.latom {
			if a != b && k.eqLin(a, b) {
				st.pc = st.pc.and(k.latom[a].iff(k.latom[b]))
			}
		}
	}
	return !st.pc.isFalse()
}

func (k *kst) eqLin(a, b kLin) bool {
	d, ok := subLin(a, b)
	return ok && k.le(d, 0) && k.le(d.minus(), 0)
}

func subLin(a, b kLin) (kLin, bool) {
	r := kLin{a.pos, a.neg, a.c - b.c}
	if b.pos != 0 {
		if r.pos == b.pos {
			r.pos = 0
		} else if r.neg == 0 {
			r.neg = b.pos
		} else {
			return r, false
		}
	}
	if b.neg != 0 {
		if r.neg == b.neg {
			r.neg = 0
		} else if r.pos == 0 {
			r.pos = b.neg
		} else {
			return r, false
		}
	}
	return r, true
}

func (k *kst) newLvl() int {
	k.lvls++
	k.dbm[[2]int{0, k.lvls}] = 0
	k.dbm[[2]int{k.lvls, lvlTop}] = 0
	return k.lvls
}

// varOf is the variable of a level.
func (d *den) levelVar(st *dst, l kLin) (tt, bool) {
	for a, t := range st.k.latom {
		if st.k.eqLin(a, l) {
			return t, true
		}
	}
	t, ok := d.atom(st)
	if ok {
		st.k.latom[l] = t
	}
	return t, ok
}

// ---- nodes

func (d *den) node(st *dst, n knode) dval {
	id := d.id()
	if n.lvl == 0 {
		n.lvl = st.k.newLvl()
	}
	if n.mask == 0 {
		n.mask = 7
	}
	st.k.nodes[id] = n
	return kNode{id}
}

func (d *den) freshNode(st *dst) dval {
	t, ok := d.atom(st)
	if !ok {
		d.lost = "too many atoms"
		return d.unk()
	}
	return d.node(st, knode{t: t})
}

func nodeID(v dval) (int, bool) {
	switch x := v.(type) {
	case kNode:
		return x.id, true
	case dInt:
		if x == 0 {
			return nodeZero, true
		}
		if x == 1 {
			return nodeOne, true
		}
	}
	return 0, false
}

func (d *den) kind(st *dst, id, mask int) bool {
	n := st.k.nodes[id]
	m := n.mask & mask
	if m == 0 {
		return false
	}
	if m == n.mask {
		return true
	}
	n.mask = m
	st.k.nodes[id] = n
	self := kLin{n.lvl, lvlTop, 0}
	switch m {
	case kZero, kOne, kZero | kOne:
		if m == kZero {
			st.pc = st.pc.and(n.t.not())
		} else if m == kOne {
			st.pc = st.pc.and(n.t)
		}
		if n.lvl != lvlTop && (!st.k.addLe(st, self) || !st.k.addLe(st, self.minus())) {
			return false
		}
	case kInner:
		if !st.k.addLe(st, kLin{n.lvl, lvlTop, 1}) {
			return false
		}
	}
	if st.pc.isFalse() {
		return false
	}
	for _, p := range st.k.nodes {
		if p.lo != 0 && !st.childrenDiffer(p) {
			return false
		}
	}
	return true
}

func (st *dst) childrenDiffer(p knode) bool {
	lo, hi := st.k.nodes[p.lo], st.k.nodes[p.hi]
	return !(lo.mask == hi.mask && (lo.mask == kZero || lo.mask == kOne))
}

// expand gives an inner node its children.
func (d *den) expand(st *dst, id int) bool {
	n := st.k.nodes[id]
	if n.lo != 0 {
		return true
	}
	x, ok1 := d.levelVar(st, kLin{n.lvl, 0, 0})
	lo, ok2 := d.freshNode(st).(kNode)
	hi, ok3 := d.freshNode(st).(kNode)
	if !ok1 || !ok2 || !ok3 {
		return false
	}
	n.lo, n.hi = lo.id, hi.id
	st.k.nodes[id] = n
	l, h := st.k.nodes[lo.id], st.k.nodes[hi.id]
	st.pc = st.pc.and(n.t.iff(x.and(h.t).or(x.not().and(l.t))))
	st.k.addLe(st, kLin{n.lvl, l.lvl, 1})
	st.k.addLe(st, kLin{n.lvl, h.lvl, 1})
	return true
}

// above: every node below the level is known to be one of the node's.
func (st *dst) above(l kLin, id int, depth int) bool {
	n := st.k.nodes[id]
	if e, ok := subLin(l, kLin{n.lvl, 0, 0}); ok && st.k.le(e, -1) {
		return true
	}
	if len(n.lbs) == 0 || depth > 6 {
		return false
	}
	for _, b := range n.lbs {
		if !st.above(l, b, depth+1) {
			return false
		}
	}
	return true
}

func (d *den) makeNode(st *dst, l kLin, lo, hi int) (dval, bool) {
	x, ok := d.levelVar(st, l)
	if !ok {
		d.lost = "too many atoms"
		return nil, false
	}
	a, b := st.k.nodes[lo], st.k.nodes[hi]
	if lo == hi {
		return kNode{lo}, true
	}
	if st.k.disor == "" && (!st.above(l, lo, 0) || !st.above(l, hi, 0)) {
		st.k.disor = "a node is made whose level is not known to be above those of its children"
	}
	st.k.lins = append(st.k.lins, l)
	m := kInner | a.mask&b.mask&3
	n := knode{t: x.and(b.t).or(x.not().and(a.t)), mask: m}
	n.men = fmt.Sprintf("%s%sL%v;", a.men, b.men, l)
	n.cube = a.mask == kZero && b.cube || b.mask == kZero && a.cube
	if l.neg == 0 && l.c == 0 && l.pos != 0 {
		// at or below the level
		n.lvl = st.k.newLvl()
		st.k.addLe(st, kLin{l.pos, n.lvl, 0})
		if m == kInner {
			st.k.addLe(st, kLin{n.lvl, l.pos, 0})
			st.k.addLe(st, kLin{n.lvl, lvlTop, 1})
		}
	} else {
		n.lvl = st.k.newLvl()
		if l.neg == 0 {
			st.k.addLe(st, kLin{l.pos, n.lvl, l.c})
			if m == kInner {
				st.k.addLe(st, kLin{n.lvl, l.pos, -l.c})
			}
		}
	}
	return d.node(st, n), true
}

// ---- conditions

func (d *den) kTruth(st *dst, v dval) (tt, bool) {
	yes := func(b, known bool) (tt, bool) {
		if !known {
			return tt{}, false
		}
		if b {
			return ttTrue, true
		}
		return ttFalse, true
	}
	switch x := v.(type) {
	case kIs:
		m := st.k.nodes[x.id].mask
		if m&^x.mask == 0 {
			return ttTrue, true
		}
		return yes(false, m&x.mask == 0)
	case kNodeEq:
		if x.a == x.b {
			return yes(!x.neg, true)
		}
		a, b := st.k.nodes[x.a], st.k.nodes[x.b]
		if a.mask&b.mask == 0 {
			return yes(x.neg, true)
		}
		if a.mask == b.mask && (a.mask == kZero || a.mask == kOne) {
			return yes(!x.neg, true)
		}
		if e, ok := st.bools[eqKey(x.a, x.b)]; ok {
			return yes(e != x.neg, true)
		}
		la, lb := kLin{a.lvl, b.lvl, 0}, kLin{b.lvl, a.lvl, 0}
		if st.k.le(la, -1) || st.k.le(lb, -1) {
			return yes(x.neg, true)
		}
	case kLe:
		if st.k.le(x.l, 0) {
			return ttTrue, true
		}
		return yes(false, st.k.le(x.l.minus(), -1))
	case kEqL:
		if st.k.le(x.l, 0) && st.k.le(x.l.minus(), 0) {
			return yes(!x.neg, true)
		}
		return yes(x.neg, st.k.le(x.l, -1) || st.k.le(x.l.minus(), -1))
	case kNamed:
		if b, ok := st.bools[x.what]; ok {
			return yes(b != x.neg, true)
		}
	}
	return tt{}, false
}

func (d *den) kAssume(st *dst, c dval, b bool) bool {
	switch x := c.(type) {
	case kIs:
		if b {
			return d.kind(st, x.id, x.mask)
		}
		return d.kind(st, x.id, 7&^x.mask)
	case kNodeEq:
		b = b != x.neg
		st.bools[eqKey(x.a, x.b)] = b
		if b {
			m, n := st.k.nodes[x.a], st.k.nodes[x.b]
			st.pc = st.pc.and(m.t.iff(n.t))
			if !d.kind(st, x.a, n.mask) || !d.kind(st, x.b, m.mask) || st.pc.isFalse() {
				return false
			}
			return st.k.addLe(st, kLin{m.lvl, n.lvl, 0}) && st.k.addLe(st, kLin{n.lvl, m.lvl, 0})
		}
		for _, p := range [][2]int{{x.a, x.b}, {x.b, x.a}} {
			if m := st.k.nodes[p[0]].mask; m == kZero || m == kOne {
				return d.kind(st, p[1], 7&^m)
			}
		}
	case kLe:
		if b {
			return st.k.addLe(st, x.l)
		}
		n := x.l.minus()
		n.c++
		return st.k.addLe(st, n)
	case kEqL:
		if b != x.neg {
			return st.k.addLe(st, x.l) && st.k.addLe(st, x.l.minus())
		}
		st.k.ne[x.l] = true
		return st.k.close(st)
	case kNamed:
		st.bools[x.what] = b != x.neg
	}
	return true
}

func kNegate(v dval) (dval, bool) {
	switch x := v.(type) {
	case kIs:
		return kIs{x.id, 7 &^ x.mask}, true
	case kNodeEq:
		x.neg = !x.neg
		return x, true
	case kLe:
		n := x.l.minus()
		n.c++
		return kLe{n}, true
	case kEqL:
		x.neg = !x.neg
		return x, true
	case kNamed:
		x.neg = !x.neg
		return x, true
	}
	return nil, false
}

// linOf: the values that are numbers of levels.
func linOf(v dval) (kLin, bool) {
	switch x := v.(type) {
	case kLin:
		return x, true
	case dInt:
		return kLin{0, 0, int(x)}, true
	}
	return kLin{}, false
}

func (d *den) kCompare(op token.Token, e kLin) dval {
	switch op {
	case token.EQL:
		return kEqL{l: e}
	case token.NEQ:
		return kEqL{l: e, neg: true}
	case token.LEQ:
		return kLe{e}
	case token.LSS:
		e.c++
		return kLe{e}
	case token.GEQ:
		return kLe{e.minus()}
	case token.GTR:
		e = e.minus()
		e.c++
		return kLe{e}
	}
	return d.unk()
}

// kBinop interprets operations on the numbers of the kernel.
func (d *den) kBinop(st *dst, op token.Token, a, b dval) (dval, *dfork, bool) {
	conc := func(v dval) dval {
		if n, ok := v.(kNode); ok {
			switch st.k.nodes[n.id].mask {
			case kZero:
				return dInt(0)
			case kOne:
				return dInt(1)
			}
		}
		return v
	}
	a, b = conc(a), conc(b)
	cmp := op == token.EQL || op == token.NEQ || op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ
	if !cmp {
		for _, v := range []dval{a, b} {
			if n, ok := v.(kNode); ok && st.k.nodes[n.id].mask == kZero|kOne {
				return nil, &dfork{kIs{n.id, kOne}}, true
			}
		}
	}
	ai, aInt := a.(dInt)
	bi, bInt := b.(dInt)
	if aInt && bInt {
		switch op {
		case token.SHL:
			return ai << uint(bi&63), nil, true
		case token.SHR:
			return ai >> uint(bi&63), nil, true
		case token.ADD:
			return ai + bi, nil, true
		case token.SUB:
			return ai - bi, nil, true
		case token.OR:
			return ai | bi, nil, true
		case token.AND:
			return ai & bi, nil, true
		case token.XOR:
			return ai ^ bi, nil, true
		case token.MUL:
			return ai * bi, nil, true
		}
		if r, ok := cmpInt(op, int64(ai), int64(bi)); ok {
			return d.b2i(r), nil, true
		}
		return nil, nil, false
	}
	// nodes
	an, aNode := a.(kNode)
	bn, bNode := b.(kNode)
	if aNode && bNode && (op == token.EQL || op == token.NEQ) {
		return kNodeEq{an.id, bn.id, op == token.NEQ}, nil, true
	}
	if bNode && aInt {
		a, b, an, bi, aNode, bInt = b, a, bn, ai, true, true
		if cmp {
			op = flip(op)
		}
	}
	if aNode && bInt && cmp {
		m := 0
		if r, _ := cmpInt(op, 0, int64(bi)); r {
			m |= kZero
		}
		if r, _ := cmpInt(op, 1, int64(bi)); r {
			m |= kOne
		}
		lo, _ := cmpInt(op, 2, int64(bi))
		hi, _ := cmpInt(op, 1<<30, int64(bi))
		if bi <= 1 && lo == hi {
			if lo {
				m |= kInner
			}
			return kIs{an.id, m}, nil, true
		}
		if op == token.LSS && bi == 2 || op == token.GEQ && bi == 2 {
			if lo {
				m |= kInner
			}
			return kIs{an.id, m}, nil, true
		}
		return d.unk(), nil, true
	}
	// truth values of structures and pointers
	if op == token.EQL || op == token.NEQ {
		if r, ok := constEq(a, b); ok {
			return d.b2i(r == (op == token.EQL)), nil, true
		}
		pa, ok1 := a.(dPtr)
		pb, ok2 := b.(dPtr)
		if ok1 && ok2 {
			return d.b2i((pa == pb) == (op == token.EQL)), nil, true
		}
		_, ok1 = a.(kEntryF)
		_, ok2 = b.(kEntryF)
		if ok1 || ok2 {
			return kNamed{fmt.Sprint(a, "=", b), op == token.NEQ}, nil, true
		}
	}
	// the variable set
	if sa, ok := a.(kSgn); ok {
		if sb, ok := b.(kSgn); ok && (op == token.EQL || op == token.NEQ) {
			return d.b2i((sa == sb) == (op == token.EQL)), nil, true
		}
		if bInt && bi == 0 && cmp && sa.s != 0 {
			r, _ := cmpInt(op, int64(sa.s), 0)
			return d.b2i(r), nil, true
		}
		if op == token.MUL && bInt && bi == -1 {
			return kSgn{-sa.s}, nil, true
		}
		return d.unk(), nil, true
	}
	if sb, ok := b.(kSgn); ok {
		if aInt && ai == 0 && op == token.SUB {
			return kSgn{-sb.s}, nil, true
		}
		if aInt && ai == 0 && cmp && sb.s != 0 {
			r, _ := cmpInt(op, 0, int64(sb.s))
			return d.b2i(r), nil, true
		}
		return d.unk(), nil, true
	}
	// levels
	la, ok1 := linOf(a)
	lb, ok2 := linOf(b)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			if r, ok := subLin(la, lb.minus()); ok {
				return r, nil, true
			}
			return d.unk(), nil, true
		case token.SUB:
			if r, ok := subLin(la, lb); ok {
				return r, nil, true
			}
			return d.unk(), nil, true
		}
		if cmp {
			if e, ok := subLin(la, lb); ok {
				return d.kCompare(op, e), nil, true
			}
		}
		return kTerm{fmt.Sprint(a, op, b)}, nil, true
	}
	// indices of variables
	if v, ok := a.(kVarIx); ok {
		switch {
		case bInt && (op == token.MUL):
			return kVarIx{v.l, v.mul * int(bi), v.add * int(bi)}, nil, true
		case bInt && op == token.SHL && bi < 8:
			return kVarIx{v.l, v.mul << bi, v.add << bi}, nil, true
		case bInt && (op == token.ADD || op == token.OR && v.mul%2 == 0 && v.add%2 == 0 && bi == 1):
			return kVarIx{v.l, v.mul, v.add + int(bi)}, nil, true
		}
		if w, ok := b.(kVarIx); ok && op == token.ADD && w.l == v.l {
			return kVarIx{v.l, v.mul + w.mul, v.add + w.add}, nil, true
		}
		if cmp {
			// an index is in range
			return kNamed{"range", op == token.GEQ || op == token.LSS && bInt}, nil, true
		}
	}
	if v, ok := b.(kVarIx); ok && aInt {
		switch op {
		case token.MUL:
			return kVarIx{v.l, v.mul * int(ai), v.add * int(ai)}, nil, true
		case token.ADD:
			return kVarIx{v.l, v.mul, v.add + int(ai)}, nil, true
		}
	}
	switch a.(type) {
	case kNode, kTerm, kLin, kVarIx:
		if !cmp {
			return kTerm{fmt.Sprint(a, op, b)}, nil, true
		}
	}
	switch b.(type) {
	case kNode, kTerm, kLin, kVarIx:
		if !cmp {
			return kTerm{fmt.Sprint(a, op, b)}, nil, true
		}
	}
	if cmp && (op == token.EQL || op == token.NEQ) {
		_, ok1 := a.(kTerm)
		_, ok2 := b.(kTerm)
		if ok1 && bInt || ok2 && aInt {
			return kNamed{fmt.Sprint(a, "=", b), op == token.NEQ}, nil, true
		}
	}
	if ta, ok := a.(kTerm); ok {
		if tb, ok := b.(kTerm); ok && ta == tb && (op == token.EQL || op == token.NEQ) {
			return d.b2i(op == token.EQL), nil, true
		}
	}
	return nil, nil, false
}

// constEq compares structures of numbers.
func constEq(a, b dval) (bool, bool) {
	fs := func(v dval) ([]dval, bool) {
		switch x := v.(type) {
		case dStruct:
			return x.f, true
		case []dval:
			return x, true
		}
		return nil, false
	}
	x, ok1 := fs(a)
	y, ok2 := fs(b)
	if !ok1 || !ok2 || len(x) != len(y) {
		return false, false
	}
	for i := range x {
		m, ok1 := x[i].(dInt)
		n, ok2 := y[i].(dInt)
		if ok1 && ok2 {
			if m != n {
				return false, true
			}
			continue
		}
		r, ok := constEq(x[i], y[i])
		if !ok || !r {
			return r, ok
		}
	}
	return true, true
}

// ---- memory

func keyOf(v dval) string {
	if l, ok := v.(dInt); ok {
		return fmt.Sprint("#", int(l))
	}
	return fmt.Sprintf("%T%v", v, v)
}

func (st *dst) newArr(d *den) kArr {
	c := d.id()
	st.k.arrs[c] = map[string]dval{}
	return kArr{c}
}

// kEval interprets addresses and loads of the kernel's data.
func (d *den) kEval(it *ditem, v ssa.Value) (dval, *dfork, bool) {
	st := it.st
	switch x := v.(type) {
	case *ssa.Alloc:
		if isNamed(deref(x.Type()), "big", "Int") || deref(x.Type()).String() == "math/big.Int" {
			c := d.id()
			st.heap[c] = kPoly{""}
			return dPtr{c, -1}, nil, true
		}
	case *ssa.MakeSlice:
		if _, ok := d.get(it, x.Len).(dInt); !ok {
			if b, ok := x.Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return st.newArr(d), nil, true
			}
		}
	case *ssa.IndexAddr:
		i := d.get(it, x.Index)
		switch a := d.get(it, x.X).(type) {
		case kSpec:
			if _, ok := i.(kNode); !ok && a.name == "nodes" {
				if n, ok := i.(dInt); ok && (n == 0 || n == 1) {
					id, _ := nodeID(n)
					return kElem{a, kNode{id}}, nil, true
				}
				if n, ok := i.(dInt); ok && n >= 2 {
					key := fmt.Sprint("nodes", n)
					id, has := st.k.memo[key]
					if !has {
						v, ok := d.freshNode(st).(kNode)
						if !ok || !d.kind(st, v.id, kInner) {
							return d.unk(), nil, true
						}
						id = v.id
						st.k.memo[key] = id
					}
					return kElem{a, kNode{id}}, nil, true
				}
				return d.unk(), nil, true
			}
			return kElem{a, i}, nil, true
		case kArr:
			return kElem{a, i}, nil, true
		case dPtr:
			if n, ok := i.(dInt); ok && a.idx >= 0 {
				// an array in a structure: read only
				if l, ok := d.load(st, a).([]dval); ok && int(n) < len(l) {
					c := d.id()
					st.heap[c] = append([]dval{}, l...)
					return dPtr{c, int(n)}, nil, true
				}
				if l, ok := d.load(st, a).(dStruct); ok && int(n) < len(l.f) {
					c := d.id()
					st.heap[c] = append([]dval{}, l.f...)
					return dPtr{c, int(n)}, nil, true
				}
			}
		}
		if n, ok := i.(kNode); ok {
			switch st.k.nodes[n.id].mask {
			case kZero, kOne:
			default:
				_ = n
			}
		}
	case *ssa.FieldAddr:
		name := ""
		if s, ok := deref(x.X.Type()).Underlying().(*types.Struct); ok {
			name = s.Field(x.Field).Name()
		}
		switch a := d.get(it, x.X).(type) {
		case kElem:
			if n, ok := a.key.(kNode); ok {
				return kFld{n.id, name}, nil, true
			}
		case kEntry:
			return kEntryF{a.id, name}, nil, true
		}
	case *ssa.UnOp:
		if x.Op == token.SUB {
			switch a := d.get(it, x.X).(type) {
			case kSgn:
				return kSgn{-a.s}, nil, true
			case kLin:
				return a.minus(), nil, true
			}
		}
		if x.Op != token.MUL {
			return nil, nil, false
		}
		switch a := d.get(it, x.X).(type) {
		case kFld:
			id := a.n.(int)
			n := st.k.nodes[id]
			switch a.f {
			case "level":
				return kLin{n.lvl, 0, 0}, nil, true
			case "low", "high":
				if n.mask == kZero || n.mask == kOne {
					return kNode{id}, nil, true
				}
				if n.mask != kInner {
					return nil, &dfork{kIs{id, kInner}}, true
				}
				if !d.expand(st, id) {
					return d.unk(), nil, true
				}
				if a.f == "low" {
					return kNode{st.k.nodes[id].lo}, nil, true
				}
				return kNode{st.k.nodes[id].hi}, nil, true
			}
			return d.unk(), nil, true
		case kEntryF:
			if v, ok := st.k.ent[fmt.Sprint(a.id, a.f)]; ok {
				return v, nil, true
			}
			if a.f == "res" || a.f == "bdres" {
				return kCached{a.id.(int)}, nil, true
			}
			return a, nil, true
		case kElem:
			return d.kLoad(st, a)
		}
	}
	return nil, nil, false
}

func (d *den) kLoad(st *dst, a kElem) (dval, *dfork, bool) {
	switch s := a.arr.(type) {
	case kArr:
		if v, ok := st.k.arrs[s.cell][keyOf(a.key)]; ok {
			return v, nil, true
		}
		return dInt(0), nil, true
	case kSpec:
		switch s.name {
		case "level2var":
			if l, ok := linOf(a.key); ok {
				return kVarIx{l, 1, 0}, nil, true
			}
		case "var2level":
			if v, ok := a.key.(kVarIx); ok && v.mul == 1 && v.add == 0 {
				return v.l, nil, true
			}
		case "vars":
			if v, ok := a.key.(kVarIx); ok && v.mul == 2 && (v.add == 0 || v.add == 1) {
				id, has := st.k.memo[fmt.Sprint("vars", v)]
				if !has {
					t, ok := d.levelVar(st, v.l)
					if !ok {
						return d.unk(), nil, true
					}
					if v.add == 1 {
						t = t.not()
					}
					id = d.node(st, knode{t: t, mask: kInner}).(kNode).id
					st.k.memo[fmt.Sprint("vars", v)] = id
				}
				return kNode{id}, nil, true
			}
		case "quantvarset":
			if l, ok := linOf(a.key); ok {
				// a level below the last one of the set is not in the set
				q := fmt.Sprint("in", l)
				if _, known := st.bools[q]; !known {
					if last, ok := st.k.memo["quantlast"]; ok {
						if e, ok := subLin(l, kLin{last, 0, 0}); ok && st.k.le(e.minus(), -1) {
							st.bools[q] = false
						}
					}
				}
				in, known := st.bools[q]
				if !known {
					return nil, &dfork{kNamed{what: q}}, true
				}
				if !in {
					return kSgn{0}, nil, true
				}
				neg, known := st.bools["neg"+q]
				if !known {
					return nil, &dfork{kNamed{what: "neg" + q}}, true
				}
				if neg {
					return kSgn{-1}, nil, true
				}
				return kSgn{1}, nil, true
			}
		}
	}
	return d.unk(), nil, true
}

func (d *den) kStore(st *dst, a, v dval) bool {
	switch x := a.(type) {
	case kElem:
		if s, ok := x.arr.(kArr); ok {
			st.k.arrs[s.cell][keyOf(x.key)] = v
		}
		return true
	case kFld:
		st.k.evs = append(st.k.evs, kEvent{what: "set " + x.f.(string), id: x.n.(int), args: []dval{v}})
		return true
	case kEntryF:
		st.k.ent[fmt.Sprint(x.id, x.f)] = v
		return true
	}
	return false
}

// ---- sums of products

func polyParse(s string) map[string]int {
	m := map[string]int{}
	for _, t := range strings.Split(s, " + ") {
		if t == "" {
			continue
		}
		n := 0
		i := strings.Index(t, "*")
		fmt.Sscan(t[:i], &n)
		m[t[i+1:]] += n
	}
	return m
}

func polyShow(m map[string]int) kPoly {
	var ts []string
	for t, n := range m {
		if n != 0 {
			ts = append(ts, fmt.Sprintf("%d*%s", n, t))
		}
	}
	sort.Strings(ts)
	return kPoly{strings.Join(ts, " + ")}
}

func polyConst(n int) kPoly { return polyShow(map[string]int{"": n}) }

func polyAdd(a, b kPoly) kPoly {
	m := polyParse(a.m)
	for t, n := range polyParse(b.m) {
		m[t] += n
	}
	return polyShow(m)
}

func polyMul(a, b kPoly) kPoly {
	m := map[string]int{}
	for t, n := range polyParse(a.m) {
		for u, k := range polyParse(b.m) {
			// the factors: 2^(levels), then counts
			lin := map[string]int{}
			var rest []string
			for _, f := range strings.Fields(t + " " + u) {
				if strings.HasPrefix(f, "2^") {
					for _, e := range strings.Split(f[2:], ",") {
						var s string
						var c int
						i := strings.Index(e, ":")
						s = e[:i]
						fmt.Sscan(e[i+1:], &c)
						lin[s] += c
					}
				} else {
					rest = append(rest, f)
				}
			}
			sort.Strings(rest)
			if p := powShow(lin); p != "" {
				rest = append([]string{p}, rest...)
			}
			m[strings.Join(rest, " ")] += n * k
		}
	}
	return polyShow(m)
}

func powShow(lin map[string]int) string {
	var es []string
	for s, c := range lin {
		if c != 0 {
			es = append(es, fmt.Sprintf("%s:%d", s, c))
		}
	}
	sort.Strings(es)
	if len(es) == 0 {
		return ""
	}
	return "2^" + strings.Join(es, ",")
}

// pow2 is 2 to the power of a number of levels.
func (k *kst) pow2(l kLin) kPoly {
	lin := map[string]int{}
	name := func(s int) string {
		for i := 0; i <= s; i++ {
			if k.eqLin(kLin{i, 0, 0}, kLin{s, 0, 0}) {
				return fmt.Sprint("L", i)
			}
		}
		return fmt.Sprint("L", s)
	}
	if l.pos != 0 {
		lin[name(l.pos)]++
	}
	if l.neg != 0 {
		lin[name(l.neg)]--
	}
	lin["one"] += l.c
	delete(lin, "L0")
	return polyShow(map[string]int{powShow(lin): 1})
}

// count is the number of models, or paths, of a node.
func (st *dst) count(what string, id int) kPoly {
	switch n := st.k.nodes[id]; n.mask {
	case kZero, kOne:
		if (n.mask == kOne) == (what != "zero") {
			return polyConst(1)
		}
		return polyConst(0)
	}
	return polyShow(map[string]int{fmt.Sprintf("%s%d", what, id): 1})
}

// kLookup: the tables of variables and indices.
func (d *den) kLookup(st *dst, s kSpec, key dval, commaOk bool) dval {
	var r dval = d.unk()
	switch s.name {
	case "idx2var":
		var l kLin
		ok := false
		switch x := key.(type) {
		case kVarIx:
			l, ok = x.l, x.mul == 1 && x.add == 0
		case dInt:
			l, ok = kLin{0, 0, int(x)}, true
		}
		if ok {
			r = d.levelVariable(st, l)
		}
	case "var2idx":
		if v, ok := key.(dDen); ok {
			r = d.indexOf(st, v)
		}
	}
	if d.kvars != nil && s.name == "var2idx" {
		known := false
		for _, v := range d.kvars {
			known = known || keyOf(v) == keyOf(key)
		}
		if !known {
			r = dInt(0)
		}
		if commaOk {
			ok := dInt(0)
			if known {
				ok = 1
			}
			return dStruct{[]dval{r, ok}}
		}
		return r
	}
	if commaOk {
		return dStruct{[]dval{r, dUnk{id: d.id(), soft: true}}}
	}
	return r
}

// levelVariable is the variable of a level as a formula.
func (d *den) levelVariable(st *dst, l kLin) dval {
	t, ok := d.levelVar(st, l)
	if !ok {
		d.lost = "too many atoms"
		return d.unk()
	}
	k := fmt.Sprint("var", l)
	id, has := st.k.memo[k]
	if !has {
		id = d.id()
		st.k.memo[k] = id
		st.pos[id] = true
		st.sorts[id] = 1 << d.sort["SortLiteral"]
	}
	return dDen{t, id}
}

// indexOf is the index of a variable.
func (d *den) indexOf(st *dst, v dDen) dval {
	for l, t := range st.k.latom {
		if t == v.t {
			return kVarIx{l, 1, 0}
		}
	}
	l := kLin{st.k.newLvl(), 0, 0}
	st.k.addLe(st, kLin{l.pos, lvlTop, 1})
	st.k.latom[l] = v.t
	return kVarIx{l, 1, 0}
}
