package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An abstract interpretation of functions over formulas in the domain of
// Boolean functions.  A formula, literal, name, BDD node or truth value is
// abstracted to the Boolean function it denotes over the (unknown) meanings of
// the operands of the formula under analysis; formulas are distinguished by
// sort.  Recursive calls are replaced by the induction hypothesis, calls of the
// factory by their meaning, other calls of the module are followed, everything
// else is unknown.  Conditions that are not decided split the analysis.

const ttAtoms = 10

// tt is a Boolean function over ttAtoms atoms.
type tt [1 << ttAtoms / 64]uint64

var atomTT [ttAtoms]tt
var ttTrue, ttFalse tt

func init() {
	for i := range ttTrue {
		ttTrue[i] = ^uint64(0)
	}
	for a := 0; a < ttAtoms; a++ {
		for v := 0; v < 1<<ttAtoms; v++ {
			if v>>a&1 == 1 {
				atomTT[a][v/64] |= 1 << (v % 64)
			}
		}
	}
}

func (a tt) not() tt {
	for i := range a {
		a[i] = ^a[i]
	}
	return a
}
func (a tt) and(b tt) tt {
	for i := range a {
		a[i] &= b[i]
	}
	return a
}
func (a tt) or(b tt) tt {
	for i := range a {
		a[i] |= b[i]
	}
	return a
}
func (a tt) iff(b tt) tt {
	for i := range a {
		a[i] = ^(a[i] ^ b[i])
	}
	return a
}
func (a tt) isFalse() bool     { return a == ttFalse }
func (a tt) implies(b tt) bool { return a.and(b.not()).isFalse() }

// subst replaces atom i by f.
func (a tt) subst(i int, f tt) tt {
	var lo, hi tt
	for v := 0; v < 1<<ttAtoms; v++ {
		if v0 := v &^ (1 << i); a[v0/64]>>(v0%64)&1 == 1 {
			lo[v/64] |= 1 << (v % 64)
		}
		if v1 := v | 1<<i; a[v1/64]>>(v1%64)&1 == 1 {
			hi[v/64] |= 1 << (v % 64)
		}
	}
	return f.and(hi).or(f.not().and(lo))
}

// dval is an abstract value.
type dval any

type (
	dUnk struct {
		soft bool // the outcome of a lookup: says nothing about a formula
		id   int
		neg  bool
	}
	dDen struct {
		t  tt
		id int // symbol: sort, polarity and operands are kept per symbol
	}
	dInt  int64
	dNil  struct{}
	dSort struct{ id int }
	// dCmp: the sort of a symbol lies in mask.
	dCmp struct {
		id   int
		mask uint16
	}
	dPos struct { // the polarity of a literal is positive
		id  int
		neg bool
	}
	dEq struct {
		a, b dval
		neg  bool
	}
	// dIs: an unknown value equals a constant (or nil)
	dIs struct {
		id   int
		what string
		neg  bool
	}
	dList   struct{ cell, off, n int }
	dPtr    struct{ cell, idx int } // idx -1: the cell itself
	dStruct struct{ f []dval }
	dMap    struct{ cell int }
	dFunc   struct {
		fn    *ssa.Function
		binds []dval
	}
)

type dEntry struct{ k, v dval }

// dIter is an iteration over the entries of a map.
type dIter struct {
	es   []dEntry
	cell int
}

// dst is an abstract state.
type dst struct {
	pc     tt
	atoms  int
	heap   map[int]dval // scalars, dStruct, []dval (lists), []dEntry (maps)
	bools  map[string]bool
	sorts  map[int]uint16
	pos    map[int]bool
	ops    map[int][]dval
	alias  map[int]dDen // unknown numbers that stand for a variable or literal
	lazy   map[string]int
	emit   [][]dval
	vague  bool // something was assumed about an unknown value
	recurs int
	hyps   []tt            // what is known of the results of other functions
	repl   map[int]tt      // the intended meaning of an atom
	inits  map[string]int  // the unknown first contents of a cell
	tab    map[string]dval // entries of the tables of an encoder
	shape  map[int]uint16  // the forms a formula is known to have
	lacks  map[int]uint16  // the forms a formula is known not to have
	preds  []dpred         // what was stored in the caches of the predicates
	guess  bool            // a condition the analysis does not understand was decided
	k      *kst            // what is known of the nodes of a BDD kernel
}

func cpM[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *dst) clone() *dst {
	n := *s
	n.heap, n.bools, n.sorts, n.pos = cpM(s.heap), cpM(s.bools), cpM(s.sorts), cpM(s.pos)
	n.ops, n.alias, n.lazy = cpM(s.ops), cpM(s.alias), cpM(s.lazy)
	n.emit = append([][]dval{}, s.emit...)
	n.hyps = append([]tt{}, s.hyps...)
	n.repl, n.inits, n.tab, n.shape = cpM(s.repl), cpM(s.inits), cpM(s.tab), cpM(s.shape)
	n.lacks, n.preds = cpM(s.lacks), append([]dpred{}, s.preds...)
	if s.k != nil {
		n.k = s.k.clone()
	}
	return &n
}

type dout struct {
	st    *dst
	rets  []dval
	panic bool
	ret   *ssa.Return
}

type den struct {
	p                *Program
	next             int
	steps            int
	budget, maxSteps int
	onUpdate         func(*dst, dval, dval, *ssa.MapUpdate)
	lost             string // why the analysis is incomplete, "" if it is complete
	root             *ssa.Function
	pkgs             map[*types.Package]bool // packages whose functions are followed
	hyp              func(d *den, callee *ssa.Function, args []dval, st *dst) ([]dcall, bool)
	emits            func(cc *ssa.CallCommon, callee *ssa.Function, args []dval) (dval, bool) // a clause given to a solver
	onLookup         func(st *dst, x *ssa.Lookup, k dval) ([]dcall, bool)
	loose            types.Type // follow calls of methods of this type with unknown arguments, too
	prims            func(d *den, callee *ssa.Function, args []dval, st *dst) ([]dcall, bool)
	closed           bool // a variable that is not assigned is false
	total            bool // every variable is assigned
	shaped           bool // keep the forms of formulas
	kern             bool
	kvars            []dval // the variables of the kernel; the others are not in its tables // interpret a BDD kernel
	cut              int    // how often a loop is followed
	onCall           func(d *den, cc *ssa.CallCommon, name string, args []dval, st *dst) ([]dcall, bool)
	topID            int // the formula a claim is about
	ctrue            map[string]bool
	cfalse           map[string]bool
	stack            []*ssa.Function
	polSet           map[string]bool
	sort             map[string]int64 // names of the sorts
}

type dcall struct {
	st  *dst
	val dval
}

type dfork struct{ cond dval }

// denFacts are facts about the module shared by all analyses.
type denFacts struct {
	ctrue, cfalse, polSet map[string]bool
	sort                  map[string]int64
}

func newDenFacts(p *Program) *denFacts {
	d := &denFacts{map[string]bool{}, map[string]bool{}, map[string]bool{}, enumValues(p, "formula", "FSort")}
	for name, m := range map[string]map[string]bool{"Verum": d.ctrue, "Falsum": d.cfalse} {
		if f := p.Func("formula", "CachingFactory."+name); f != nil {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if v, ok := in.(ssa.Value); ok {
						if k, _ := valueFieldKey(v, 0); k != "" {
							m[k] = true
						}
					}
				}
			}
		}
	}
	return d
}

// polaritySets finds the sets of an assignment that hold the positive and the
// negative literals.
func (df *denFacts) polaritySets(p *Program) {
	f := p.Func("assignment", "Assignment.AddLit")
	if f == nil {
		return
	}
	conflict := map[string]bool{}
	for _, pos := range []bool{true, false} {
		d := newDen(p, df)
		d.root = f
		st := newDst()
		args := make([]dval, len(f.Params))
		for i, q := range f.Params {
			args[i] = d.unk()
			if isNamed(q.Type(), "formula", "Literal") {
				t, _ := d.atom(st)
				v := dDen{t, d.id()}
				st.pos[v.id] = pos
				st.sorts[v.id] = 1 << d.sort["SortLiteral"]
				args[i] = v
			}
		}
		d.onUpdate = func(st *dst, k, v dval, x *ssa.MapUpdate) {
			kd, ok := k.(dDen)
			key, _ := valueFieldKey(x.Map, 0)
			if !ok || key == "" {
				return
			}
			if b, ok := st.pos[kd.id]; ok {
				if old, has := df.polSet[key]; has && old != b {
					conflict[key] = true
				}
				df.polSet[key] = b
			}
		}
		d.run(f, args, nil, st)
	}
	for k := range conflict {
		delete(df.polSet, k)
	}
}

func newDen(p *Program, df *denFacts) *den {
	return &den{p: p, budget: 3000, maxSteps: 300000, pkgs: map[*types.Package]bool{}, ctrue: df.ctrue, cfalse: df.cfalse, polSet: df.polSet, sort: df.sort}
}

func (d *den) id() int { d.next++; return d.next }

func newDst() *dst {
	return &dst{pc: ttTrue, heap: map[int]dval{}, bools: map[string]bool{}, sorts: map[int]uint16{}, pos: map[int]bool{},
		ops: map[int][]dval{}, alias: map[int]dDen{}, lazy: map[string]int{}, repl: map[int]tt{}, inits: map[string]int{}, tab: map[string]dval{}}
}

// atom is a new, unknown truth value.
func (d *den) atom(st *dst) (tt, bool) {
	if st.atoms >= ttAtoms {
		return tt{}, false
	}
	st.atoms++
	return atomTT[st.atoms-1], true
}

func (d *den) fresh(st *dst) dval {
	t, ok := d.atom(st)
	if !ok && d.shaped {
		// the meaning does not matter much: something that is like no other
		t = d.noise()
	} else if !ok {
		return d.unk()
	}
	return dDen{t, d.id()}
}

// noise is a function of all atoms that looks like no other.
func (d *den) noise() tt {
	var t tt
	x := uint64(d.id())*0x9E3779B97F4A7C15 + 1
	for i := range t {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		t[i] = x * 0x2545F4914F6CDD1D
	}
	return t
}

func (d *den) unk() dval    { return dUnk{id: d.id()} }
func (d *den) of(t tt) dval { return dDen{t, d.id()} }
func (d *den) konst(b bool, st *dst) dDen {
	t, s := ttFalse, "SortFalse"
	if b {
		t, s = ttTrue, "SortTrue"
	}
	v := dDen{t, d.id()}
	st.sorts[v.id] = 1 << d.sort[s]
	return v
}

const allSorts = uint16(0x3ff)

func (st *dst) mask(id int) uint16 {
	if m, ok := st.sorts[id]; ok {
		return m
	}
	return allSorts
}

func (d *den) single(st *dst, id int, name string) bool { return st.mask(id) == 1<<d.sort[name] }

// den returns the meaning of a value that stands for a truth value.
func (d *den) den(st *dst, v dval) (tt, bool) {
	switch x := v.(type) {
	case dDen:
		return x.t, true
	case dUnk:
		if a, ok := st.alias[x.id]; ok {
			return a.t, true
		}
	}
	return tt{}, false
}

// truth converts a bool value.
func (d *den) truth(st *dst, v dval) (tt, bool) {
	switch x := v.(type) {
	case dInt:
		if x != 0 {
			return ttTrue, true
		}
		return ttFalse, true
	case dDen:
		return x.t, true
	case dCmp:
		m := st.mask(x.id)
		if m&^x.mask == 0 {
			return ttTrue, true
		}
		if m&x.mask == 0 {
			return ttFalse, true
		}
	case dPos:
		if b, ok := st.pos[x.id]; ok {
			if b != x.neg {
				return ttTrue, true
			}
			return ttFalse, true
		}
	case dUnk:
		if b, ok := st.bools[fmt.Sprint(x.id)]; ok {
			if b != x.neg {
				return ttTrue, true
			}
			return ttFalse, true
		}
	case dIs:
		if b, ok := st.bools[fmt.Sprint(x.id, x.what)]; ok {
			if b != x.neg {
				return ttTrue, true
			}
			return ttFalse, true
		}
	case dEq:
		if b, ok := d.same(st, x.a, x.b); ok {
			if b != x.neg {
				return ttTrue, true
			}
			return ttFalse, true
		}
	}
	if d.kern {
		return d.kTruth(st, v)
	}
	return tt{}, false
}

// same: two values are known to be the same, or different, formulas.
func (d *den) same(st *dst, a, b dval) (bool, bool) {
	x, ok1 := a.(dDen)
	y, ok2 := b.(dDen)
	if ok1 && ok2 {
		if x.id == y.id && x.id != 0 {
			return true, true
		}
		if e, ok := st.bools[eqKey(x.id, y.id)]; ok {
			return e, true
		}
		mx, my := st.mask(x.id), st.mask(y.id)
		cm := uint16(1<<d.sort["SortTrue"] | 1<<d.sort["SortFalse"])
		if mx&my == 0 {
			return false, true
		}
		if mx == my && (mx == 1<<d.sort["SortTrue"] || mx == 1<<d.sort["SortFalse"]) {
			return true, true
		}
		_ = cm
		if px, ok := st.pos[x.id]; ok {
			if py, ok := st.pos[y.id]; ok && px != py {
				return false, true
			}
		}
		return false, false
	}
	m, ok1 := a.(dInt)
	n, ok2 := b.(dInt)
	if ok1 && ok2 {
		return m == n, true
	}
	return false, false
}

func eqKey(a, b int) string {
	if a > b {
		a, b = b, a
	}
	return fmt.Sprint("eq", a, "=", b)
}

func negD(v dval) dval {
	switch x := v.(type) {
	case dInt:
		return dInt(1 - x)
	case dDen:
		return dDen{x.t.not(), 0}
	case dCmp:
		return dCmp{x.id, allSorts &^ x.mask}
	case dPos:
		x.neg = !x.neg
		return x
	case dEq:
		x.neg = !x.neg
		return x
	case dIs:
		x.neg = !x.neg
		return x
	case dUnk:
		x.neg = !x.neg
		return x
	}
	if n, ok := kNegate(v); ok {
		return n
	}
	return v
}

// narrow restricts the sorts of a symbol and draws the conclusions.
func (d *den) narrow(st *dst, id int, mask uint16, t tt, hasT bool) bool {
	m := st.mask(id) & mask
	if m == 0 {
		return false
	}
	st.sorts[id] = m
	if hasT {
		switch m {
		case 1 << d.sort["SortTrue"]:
			st.pc = st.pc.and(t)
		case 1 << d.sort["SortFalse"]:
			st.pc = st.pc.and(t.not())
		}
	}
	return !st.pc.isFalse()
}

// assume adds a condition to the state; false: the state is impossible.
func (d *den) assume(st *dst, c dval, b bool) bool {
	if t, ok := d.truth(st, c); ok {
		if !b {
			t = t.not()
		}
		st.pc = st.pc.and(t)
		return !st.pc.isFalse()
	}
	switch x := c.(type) {
	case dCmp:
		m := x.mask
		if !b {
			m = allSorts &^ m
		}
		t, ok := d.meaning(st, x.id)
		return d.narrow(st, x.id, m, t, ok)
	case dPos:
		st.pos[x.id] = b != x.neg
	case dUnk:
		st.guess = st.guess || !x.soft
		st.bools[fmt.Sprint(x.id)] = b != x.neg
	case dIs:
		st.bools[fmt.Sprint(x.id, x.what)] = b != x.neg
	case dEq:
		b = b != x.neg
		ta, oka := d.den(st, x.a)
		tb, okb := d.den(st, x.b)
		if !oka || !okb {
			st.vague = true
			return true
		}
		if b {
			st.pc = st.pc.and(ta.iff(tb))
		}
		if x1, ok := x.a.(dDen); ok {
			if x2, ok := x.b.(dDen); ok && x1.id != 0 && x2.id != 0 {
				st.bools[eqKey(x1.id, x2.id)] = b
			}
		}
		// comparison with a constant formula says something about the sort
		for _, s := range [][2]dval{{x.a, x.b}, {x.b, x.a}} {
			k, ok1 := s[1].(dDen)
			v, ok2 := s[0].(dDen)
			if !ok1 || !ok2 || v.id == 0 || k.id == 0 {
				continue
			}
			if m := st.mask(k.id); m == 1<<d.sort["SortTrue"] || m == 1<<d.sort["SortFalse"] {
				if b {
					if !d.narrow(st, v.id, m, v.t, true) {
						return false
					}
				} else if !d.narrow(st, v.id, allSorts&^m, v.t, true) {
					return false
				}
			}
		}
		return !st.pc.isFalse()
	default:
		if d.kern {
			return d.kAssume(st, c, b)
		}
	}
	return true
}

// meaning of a symbol is remembered when the symbol's sort is asked for.
func (d *den) meaning(st *dst, id int) (tt, bool) {
	if v, ok := st.lazy[fmt.Sprint("m", id)]; ok {
		if x, ok := st.heap[v].(dDen); ok {
			return x.t, true
		}
	}
	return tt{}, false
}

func (d *den) remember(st *dst, v dDen) {
	k := fmt.Sprint("m", v.id)
	if _, ok := st.lazy[k]; !ok {
		c := d.id()
		st.heap[c] = v
		st.lazy[k] = c
	}
}

// operands gives the operands of a symbol of known sort.
func (d *den) operands(st *dst, v dDen) ([]dval, bool) {
	if o, ok := st.ops[v.id]; ok {
		return o, true
	}
	n := 0
	switch st.mask(v.id) {
	case 1 << d.sort["SortNot"]:
		n = 1
	case 1 << d.sort["SortAnd"], 1 << d.sort["SortOr"], 1 << d.sort["SortImpl"], 1 << d.sort["SortEquiv"]:
		n = 2
	default:
		return nil, false
	}
	var ops []dval
	var ts []tt
	if n == 1 {
		o := dDen{v.t.not(), d.id()}
		st.ops[v.id] = []dval{o}
		if d.shaped {
			d.shapeOperands(st, v)
		}
		return st.ops[v.id], true
	}
	for i := 0; i < n; i++ {
		o, ok := d.fresh(st).(dDen)
		if !ok {
			return nil, false
		}
		ops = append(ops, o)
		ts = append(ts, o.t)
	}
	t, _ := d.connective(st.mask(v.id), ts)
	st.pc = st.pc.and(v.t.iff(t))
	// operands of a conjunction are no conjunctions, and no constants
	for _, o := range ops {
		m := allSorts &^ (1<<d.sort["SortTrue"] | 1<<d.sort["SortFalse"])
		if st.mask(v.id) == 1<<d.sort["SortAnd"] || st.mask(v.id) == 1<<d.sort["SortOr"] {
			m &^= st.mask(v.id)
		}
		st.sorts[o.(dDen).id] = m
	}
	st.ops[v.id] = ops
	if d.shaped {
		d.shapeOperands(st, v)
	}
	return ops, true
}

func (d *den) connective(mask uint16, ts []tt) (tt, bool) {
	switch mask {
	case 1 << d.sort["SortNot"]:
		return ts[0].not(), true
	case 1 << d.sort["SortAnd"]:
		r := ttTrue
		for _, t := range ts {
			r = r.and(t)
		}
		return r, true
	case 1 << d.sort["SortOr"]:
		r := ttFalse
		for _, t := range ts {
			r = r.or(t)
		}
		return r, true
	case 1 << d.sort["SortImpl"]:
		return ts[0].not().or(ts[1]), true
	case 1 << d.sort["SortEquiv"]:
		return ts[0].iff(ts[1]), true
	}
	return tt{}, false
}

func (d *den) list(st *dst, vs []dval) dval {
	c := d.id()
	st.heap[c] = append([]dval{}, vs...)
	return dList{c, 0, len(vs)}
}

// elems returns the elements of a list value.
func (d *den) elems(st *dst, v dval) ([]dval, bool) {
	switch x := v.(type) {
	case dNil:
		return nil, true
	case dList:
		if c, ok := st.heap[x.cell].([]dval); ok && x.off+x.n <= len(c) {
			return c[x.off : x.off+x.n], true
		}
	}
	return nil, false
}

// ---- execution

type ditem struct {
	b      *ssa.BasicBlock
	i      int
	env    map[ssa.Value]dval
	st     *dst
	visits map[int]int
}

func (d *den) run(fn *ssa.Function, args, binds []dval, st *dst) []dout {
	if fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	d.stack = append(d.stack, fn)
	defer func() { d.stack = d.stack[:len(d.stack)-1] }()
	env := map[ssa.Value]dval{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		} else {
			env[p] = d.unk()
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			env[p] = binds[i]
		}
	}
	var outs []dout
	work := []*ditem{{fn.Blocks[0], 0, env, st, map[int]int{0: 1}}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
	instrs:
		for it.i < len(it.b.Instrs) {
			d.steps++
			if d.steps > d.maxSteps || len(work) > d.budget {
				d.lost = "too many cases"
				return outs
			}
			switch x := it.b.Instrs[it.i].(type) {
			case *ssa.Return:
				o := dout{st: it.st, ret: x}
				for _, r := range x.Results {
					o.rets = append(o.rets, d.get(it, r))
				}
				outs = append(outs, o)
				break instrs
			case *ssa.Panic:
				outs = append(outs, dout{st: it.st, panic: true})
				break instrs
			case *ssa.Jump:
				if !d.enter(it, it.b.Succs[0]) {
					break instrs
				}
				continue
			case *ssa.If:
				c := d.get(it, x.Cond)
				if t, ok := d.truth(it.st, c); ok {
					pt, pf := it.st.pc.and(t), it.st.pc.and(t.not())
					if pf.isFalse() {
						if !d.enter(it, it.b.Succs[0]) {
							break instrs
						}
						continue
					}
					if pt.isFalse() {
						if !d.enter(it, it.b.Succs[1]) {
							break instrs
						}
						continue
					}
				}
				o := it.clone()
				if d.assume(o.st, c, false) && d.enter(o, it.b.Succs[1]) {
					work = append(work, o)
				}
				if !d.assume(it.st, c, true) || !d.enter(it, it.b.Succs[0]) {
					break instrs
				}
				continue
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Call:
				res, fork := d.call(it, &x.Call, x.Type())
				if fork != nil {
					o := it.clone()
					if d.assume(o.st, fork.cond, false) {
						work = append(work, o)
					}
					if !d.assume(it.st, fork.cond, true) {
						break instrs
					}
					continue
				}
				for k := 1; k < len(res); k++ {
					o := it.clone()
					o.st = res[k].st
					o.env[x] = res[k].val
					o.i++
					work = append(work, o)
				}
				if len(res) == 0 {
					break instrs
				}
				it.st = res[0].st
				it.env[x] = res[0].val
			case *ssa.Store:
				d.store(it.st, d.get(it, x.Addr), d.get(it, x.Val))
			case *ssa.MapUpdate:
				d.mapUpdate(it.st, d.get(it, x.Map), d.get(it, x.Key), d.get(it, x.Value), x)
			case *ssa.Lookup:
				res, fork := d.lookup(it, x)
				if fork != nil {
					o := it.clone()
					if d.assume(o.st, fork.cond, false) {
						work = append(work, o)
					}
					if !d.assume(it.st, fork.cond, true) {
						break instrs
					}
					continue
				}
				for k := 1; k < len(res); k++ {
					o := it.clone()
					o.st = res[k].st
					o.env[x] = res[k].val
					o.i++
					work = append(work, o)
				}
				if len(res) == 0 {
					break instrs
				}
				it.st = res[0].st
				it.env[x] = res[0].val
			case *ssa.Defer, *ssa.RunDefers, *ssa.Go, *ssa.Send:
			case ssa.Value:
				v, fork := d.eval(it, x)
				if fork != nil {
					o := it.clone()
					if d.assume(o.st, fork.cond, false) {
						work = append(work, o)
					}
					if !d.assume(it.st, fork.cond, true) {
						break instrs
					}
					continue
				}
				it.env[x] = v
			}
			it.i++
		}
	}
	return outs
}

func (it *ditem) clone() *ditem {
	return &ditem{it.b, it.i, cpM(it.env), it.st.clone(), cpM(it.visits)}
}

func (d *den) enter(it *ditem, to *ssa.BasicBlock) bool {
	k := -1
	for i, p := range to.Preds {
		if p == it.b {
			k = i
		}
	}
	var vs []dval
	var ph []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
		vs = append(vs, d.get(it, p.Edges[k]))
	}
	for i, p := range ph {
		it.env[p] = vs[i]
	}
	it.visits[to.Index]++
	if d.shaped && it.visits[to.Index] > 5 {
		return false
	}
	if d.cut > 0 && it.visits[to.Index] > d.cut {
		return false
	}
	if it.visits[to.Index] > 8 {
		d.lost = "loop of unknown length"
		return false
	}
	it.b, it.i = to, len(ph)
	return true
}

func (d *den) get(it *ditem, v ssa.Value) dval {
	switch x := v.(type) {
	case *ssa.Const:
		return d.konstVal(it.st, x)
	case *ssa.Function:
		return dFunc{fn: x}
	case *ssa.Global:
		return d.cellOf(it.st, "g"+x.String(), deref(x.Type()))
	case *ssa.Builtin:
		return d.unk()
	}
	if r, ok := it.env[v]; ok {
		return r
	}
	r := d.unk()
	it.env[v] = r
	return r
}

func (d *den) konstVal(st *dst, x *ssa.Const) dval {
	if x.Value == nil {
		switch x.Type().Underlying().(type) {
		case *types.Struct:
			return d.zero(x.Type())
		case *types.Basic:
			return d.zero(x.Type())
		}
		return dNil{}
	}
	switch x.Value.Kind() {
	case constant.Int:
		n, _ := constant.Int64Val(x.Value)
		return dInt(n)
	case constant.Bool:
		if constant.BoolVal(x.Value) {
			return dInt(1)
		}
		return dInt(0)
	}
	return dUnk{id: -len(x.Value.ExactString()) - 1000}
}

func (d *den) zero(t types.Type) dval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			return dInt(0)
		}
		return d.unk()
	case *types.Struct:
		s := dStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, d.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		s := make([]dval, 0)
		if u.Len() <= 64 {
			for i := int64(0); i < u.Len(); i++ {
				s = append(s, d.zero(u.Elem()))
			}
		}
		return s
	}
	return dNil{}
}

func (d *den) cellOf(st *dst, key string, t types.Type) dval {
	if c, ok := st.lazy[key]; ok {
		return dPtr{c, -1}
	}
	c := d.id()
	st.lazy[key] = c
	u := d.unk()
	st.heap[c] = u
	st.inits[key] = u.(dUnk).id
	return dPtr{c, -1}
}

func (d *den) load(st *dst, a dval) dval {
	p, ok := a.(dPtr)
	if !ok {
		return d.unk()
	}
	c, ok := st.heap[p.cell]
	if !ok {
		return d.unk()
	}
	if p.idx < 0 {
		if l, ok := c.([]dval); ok { // an array loaded as a whole
			return dStruct{append([]dval{}, l...)}
		}
		return c
	}
	switch x := c.(type) {
	case []dval:
		if p.idx < len(x) {
			return x[p.idx]
		}
	case dStruct:
		if p.idx < len(x.f) {
			return x.f[p.idx]
		}
	}
	return d.unk()
}

func (d *den) store(st *dst, a, v dval) {
	p, ok := a.(dPtr)
	if !ok {
		if d.kern {
			d.kStore(st, a, v)
		}
		return
	}
	if p.idx < 0 {
		st.heap[p.cell] = v
		return
	}
	switch x := st.heap[p.cell].(type) {
	case []dval:
		if p.idx < len(x) {
			n := append([]dval{}, x...)
			n[p.idx] = v
			st.heap[p.cell] = n
		}
	case dStruct:
		if p.idx < len(x.f) {
			n := append([]dval{}, x.f...)
			n[p.idx] = v
			st.heap[p.cell] = dStruct{n}
		}
	}
}

func isFormulaT(t types.Type) bool {
	return isNamed(t, "formula", "Formula") || isNamed(t, "formula", "Literal") || isNamed(t, "formula", "Variable")
}

func (d *den) isConstField(v ssa.Value) (bool, bool) {
	if k, _ := valueFieldKey(v, 0); k != "" {
		if d.ctrue[k] {
			return true, true
		}
		if d.cfalse[k] {
			return false, true
		}
	}
	return false, false
}

func (d *den) eval(it *ditem, v ssa.Value) (dval, *dfork) {
	st := it.st
	if d.kern {
		if r, f, ok := d.kEval(it, v); ok {
			return r, f
		}
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		c := d.id()
		st.heap[c] = d.zero(deref(x.Type()))
		return dPtr{c, -1}, nil
	case *ssa.FieldAddr:
		if b, ok := d.isConstField(x); ok {
			c := d.id()
			st.heap[c] = d.konst(b, st)
			return dPtr{c, -1}, nil
		}
		switch a := d.get(it, x.X).(type) {
		case dPtr:
			if a.idx < 0 {
				if s, ok := st.heap[a.cell].(dStruct); ok && x.Field < len(s.f) {
					return dPtr{a.cell, x.Field}, nil
				}
				return d.cellOf(st, fmt.Sprint("p", a.cell, ".", x.Field), deref(x.Type())), nil
			}
			return d.unk(), nil
		case dUnk:
			return d.cellOf(st, fmt.Sprint("u", a.id, ".", x.Field), deref(x.Type())), nil
		}
		return d.unk(), nil
	case *ssa.Field:
		if b, ok := d.isConstField(x); ok {
			return d.konst(b, st), nil
		}
		switch a := d.get(it, x.X).(type) {
		case dStruct:
			if x.Field < len(a.f) {
				return a.f[x.Field], nil
			}
		case dUnk:
			return d.load(st, d.cellOf(st, fmt.Sprint("u", a.id, ".", x.Field), x.Type())), nil
		}
		return d.unk(), nil
	case *ssa.IndexAddr:
		i, ok := d.get(it, x.Index).(dInt)
		switch a := d.get(it, x.X).(type) {
		case dList:
			if ok && int(i) < a.n {
				return dPtr{a.cell, a.off + int(i)}, nil
			}
		case dPtr:
			if ok && a.idx < 0 {
				return dPtr{a.cell, int(i)}, nil
			}
		case dUnk:
			if ok {
				return d.cellOf(st, fmt.Sprint("u", a.id, "[", i), deref(x.Type())), nil
			}
		}
		return d.unk(), nil
	case *ssa.Index:
		i, ok := d.get(it, x.Index).(dInt)
		if s, ok2 := d.get(it, x.X).(dStruct); ok && ok2 && int(i) < len(s.f) {
			return s.f[i], nil
		}
		return d.unk(), nil
	case *ssa.UnOp:
		a := d.get(it, x.X)
		switch x.Op {
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok && isNamed(x.Type(), "handler", "State") {
				_ = g
				return dUnk{id: -1}, nil // a successful state
			}
			r := d.load(st, a)
			if u, ok := r.(dUnk); ok && boolT(x.Type()) {
				if _, ok := x.X.(*ssa.FieldAddr); ok {
					u.soft = true // a setting
					return u, nil
				}
			}
			return r, nil
		case token.NOT:
			return d.fixNeg(a), nil
		case token.SUB:
			if n, ok := a.(dInt); ok {
				return dInt(-n), nil
			}
		}
		return d.unk(), nil
	case *ssa.BinOp:
		return d.binop(it, x)
	case *ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.MultiConvert:
		return d.get(it, *v.(ssa.Instruction).Operands(nil)[0]), nil
	case *ssa.TypeAssert:
		a := d.get(it, x.X)
		if x.CommaOk {
			return dStruct{[]dval{a, d.unk()}}, nil
		}
		return a, nil
	case *ssa.Extract:
		a := d.get(it, x.Tuple)
		if s, ok := a.(dStruct); ok && x.Index < len(s.f) {
			return s.f[x.Index], nil
		}
		return d.unk(), nil
	case *ssa.MakeSlice:
		n, ok := d.get(it, x.Len).(dInt)
		if ok && n <= 32 {
			el := x.Type().Underlying().(*types.Slice).Elem()
			vs := make([]dval, n)
			for i := range vs {
				vs[i] = d.zero(el)
			}
			return d.list(st, vs), nil
		}
		return d.unk(), nil
	case *ssa.Slice:
		return d.slice(it, x), nil
	case *ssa.MakeMap:
		c := d.id()
		st.heap[c] = []dEntry{}
		return dMap{c}, nil
	case *ssa.Range:
		if m, ok := d.get(it, x.X).(dMap); ok {
			if es, ok := st.heap[m.cell].([]dEntry); ok {
				c := d.id()
				st.heap[c] = dInt(0)
				return dIter{es, c}, nil
			}
		}
		return d.unk(), nil
	case *ssa.Next:
		if r, ok := d.get(it, x.Iter).(dIter); ok {
			i, _ := st.heap[r.cell].(dInt)
			if int(i) < len(r.es) {
				st.heap[r.cell] = i + 1
				return dStruct{[]dval{dInt(1), r.es[i].k, r.es[i].v}}, nil
			}
			return dStruct{[]dval{dInt(0), d.unk(), d.unk()}}, nil
		}
		return d.unk(), nil
	case *ssa.MakeClosure:
		f := dFunc{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, d.get(it, b))
		}
		return f, nil
	}
	return d.unk(), nil
}

func (d *den) fixNeg(a dval) dval {
	r := negD(a)
	if x, ok := r.(dDen); ok {
		x.id = d.id()
		return x
	}
	return r
}

func (d *den) slice(it *ditem, x *ssa.Slice) dval {
	st := it.st
	lo, hi := 0, -1
	if x.Low != nil {
		n, ok := d.get(it, x.Low).(dInt)
		if !ok {
			return d.unk()
		}
		lo = int(n)
	}
	if x.High != nil {
		n, ok := d.get(it, x.High).(dInt)
		if !ok {
			return d.unk()
		}
		hi = int(n)
	}
	switch a := d.get(it, x.X).(type) {
	case dList:
		if hi < 0 {
			hi = a.n
		}
		if lo <= hi && hi <= a.n {
			return dList{a.cell, a.off + lo, hi - lo}
		}
	case dPtr:
		if l, ok := st.heap[a.cell].([]dval); ok && a.idx < 0 {
			if hi < 0 {
				hi = len(l)
			}
			if lo <= hi && hi <= len(l) {
				return dList{a.cell, lo, hi - lo}
			}
		}
	case dNil:
		return dNil{}
	}
	return d.unk()
}

func (d *den) asUnkDen(st *dst, v dval) (dDen, bool) {
	u, ok := v.(dUnk)
	if !ok {
		return dDen{}, false
	}
	if a, ok := st.alias[u.id]; ok {
		return a, true
	}
	t, ok := d.atom(st)
	if !ok {
		return dDen{}, false
	}
	a := dDen{t, d.id()}
	st.alias[u.id] = a
	return a, true
}

func boolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (d *den) binop(it *ditem, x *ssa.BinOp) (dval, *dfork) {
	st := it.st
	a, b := d.get(it, x.X), d.get(it, x.Y)
	if d.kern {
		if r, f, ok := d.kBinop(st, x.Op, a, b); ok {
			return r, f
		}
	}
	if u, ok := a.(dUnk); ok {
		if al, ok := st.alias[u.id]; ok {
			a = al
		}
	}
	ai, aok := a.(dInt)
	bi, bok := b.(dInt)
	if aok && bok {
		switch x.Op {
		case token.ADD:
			return ai + bi, nil
		case token.SUB:
			return ai - bi, nil
		case token.MUL:
			return ai * bi, nil
		case token.QUO:
			if bi != 0 {
				return ai / bi, nil
			}
		case token.REM:
			if bi != 0 {
				return ai % bi, nil
			}
		case token.XOR:
			return ai ^ bi, nil
		case token.AND:
			return ai & bi, nil
		case token.OR:
			return ai | bi, nil
		}
		if r, ok := cmpInt(x.Op, int64(ai), int64(bi)); ok {
			if r {
				return dInt(1), nil
			}
			return dInt(0), nil
		}
		return d.unk(), nil
	}
	// sorts
	if s, ok := a.(dSort); ok && bok {
		return d.sortCmp(s, x.Op, int64(bi)), nil
	}
	if s, ok := b.(dSort); ok && aok {
		return d.sortCmp(s, flip(x.Op), int64(ai)), nil
	}
	if (x.Op == token.EQL || x.Op == token.NEQ) && boolT(x.X.Type()) {
		for _, v := range []dval{a, b} {
			switch v.(type) {
			case dCmp, dPos, dEq, dIs, dUnk, kIs, kNodeEq, kLe, kEqL, kNamed:
				if _, ok := d.truth(st, v); !ok {
					return nil, &dfork{v}
				}
			}
		}
		ta, ok1 := d.truth(st, a)
		tb, ok2 := d.truth(st, b)
		if ok1 && ok2 {
			r := ta.iff(tb)
			if x.Op == token.NEQ {
				r = r.not()
			}
			return dDen{r, d.id()}, nil
		}
		return d.unk(), nil
	}
	// numbers of literals and variables
	if bok || aok {
		v, n := a, bi
		if aok {
			v, n = b, ai
		}
		arith := x.Op == token.XOR || x.Op == token.MUL || x.Op == token.ADD || x.Op == token.SHL || x.Op == token.OR || x.Op == token.SUB || x.Op == token.SHR || x.Op == token.REM || x.Op == token.AND || x.Op == token.QUO
		if arith {
			if _, ok := v.(dDen); !ok && x.Op == token.XOR && n == 1 {
				if al, ok := d.asUnkDen(st, v); ok {
					v = al
				}
			}
			if dd, ok := v.(dDen); ok {
				switch {
				case (x.Op == token.XOR || x.Op == token.ADD || x.Op == token.OR) && n == 1:
					r := dDen{dd.t.not(), d.id()}
					if b, ok := st.pos[dd.id]; ok {
						st.pos[r.id] = !b
					}
					return r, nil
				case x.Op == token.MUL && n == 2, x.Op == token.SHL && n == 1, x.Op == token.OR && n == 0, x.Op == token.ADD && n == 0:
					return dd, nil
				}
			}
			return d.unk(), nil
		}
	}
	if x.Op == token.EQL || x.Op == token.NEQ {
		neg := x.Op == token.NEQ
		_, an := a.(dNil)
		_, bn := b.(dNil)
		if an && bn {
			return d.b2i(!neg), nil
		}
		if an || bn {
			v := a
			if an {
				v = b
			}
			switch y := v.(type) {
			case dList, dPtr, dMap, dFunc, dDen, dStruct:
				return d.b2i(neg), nil
			case dUnk:
				return dIs{y.id, "nil", neg}, nil
			}
			return d.unk(), nil
		}
		_, ad := a.(dDen)
		_, bd := b.(dDen)
		if ad && bd {
			return dEq{a, b, neg}, nil
		}
		if u, ok := a.(dUnk); ok && bok {
			return dIs{u.id, fmt.Sprint("=", bi), neg}, nil
		}
	}
	return d.unk(), nil
}

func (d *den) b2i(b bool) dval {
	if b {
		return dInt(1)
	}
	return dInt(0)
}

func cmpInt(op token.Token, a, b int64) (bool, bool) {
	switch op {
	case token.EQL:
		return a == b, true
	case token.NEQ:
		return a != b, true
	case token.LSS:
		return a < b, true
	case token.LEQ:
		return a <= b, true
	case token.GTR:
		return a > b, true
	case token.GEQ:
		return a >= b, true
	}
	return false, false
}

func (d *den) sortCmp(s dSort, op token.Token, n int64) dval {
	m := uint16(0)
	for i := int64(0); i < 10; i++ {
		if r, ok := cmpInt(op, i, n); ok && r {
			m |= 1 << i
		} else if !ok {
			return d.unk()
		}
	}
	return dCmp{s.id, m}
}

// ---- maps

// lookup in a local map is exact; a map of the program that is keyed by a
// variable, literal or name is a substitution, which is read as the identity;
// a table of operands gives the operands of the key.
func (d *den) lookup(it *ditem, x *ssa.Lookup) ([]dcall, *dfork) {
	st := it.st
	m, k := d.get(it, x.X), d.get(it, x.Index)
	if s, ok := m.(kSpec); ok {
		return []dcall{{st, d.kLookup(st, s, k, x.CommaOk)}}, nil
	}
	wrap := func(v, ok dval) dval {
		if x.CommaOk {
			return dStruct{[]dval{v, ok}}
		}
		return v
	}
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		return []dcall{{st, d.unk()}}, nil
	}
	if l, ok := m.(dMap); ok {
		es, ok := st.heap[l.cell].([]dEntry)
		if !ok {
			return []dcall{{st, wrap(d.unk(), dUnk{id: d.id(), soft: true})}}, nil
		}
		// newest entries first; the keys are compared by their meaning
		var res []dcall
		cur := st
		for i := len(es) - 1; i >= 0; i-- {
			e := es[i]
			if eq, known := d.same(cur, e.k, k); known {
				if eq {
					return append(res, dcall{cur, wrap(e.v, dInt(1))}), nil
				}
				continue
			}
			hit := cur.clone()
			eq := dEq{e.k, k, false}
			if d.assume(hit, eq, true) {
				res = append(res, dcall{hit, wrap(e.v, dInt(1))})
			}
			if !d.assume(cur, eq, false) {
				return res, nil
			}
		}
		return append(res, dcall{cur, wrap(d.zero(mt.Elem()), dInt(0))}), nil
	}
	if d.onLookup != nil {
		if res, ok := d.onLookup(st, x, k); ok {
			return res, nil
		}
	}
	kd, ok := k.(dDen)
	if !ok {
		return []dcall{{st, wrap(d.unk(), dUnk{id: d.id(), soft: true})}}, nil
	}
	if s, ok := mt.Elem().Underlying().(*types.Struct); ok && isNamed(mt.Key(), "formula", "Formula") {
		if v, ok := d.operandTable(st, kd, s); ok {
			return []dcall{{st, wrap(v, dInt(1))}}, nil
		}
	}
	if s, ok := mt.Elem().Underlying().(*types.Struct); ok && isNamed(mt.Key(), "formula", "Literal") {
		// the table of literals: name and phase
		if v, fork := d.litTable(st, kd, s); fork != nil {
			return nil, fork
		} else if v != nil {
			return []dcall{{st, wrap(v, dInt(1))}}, nil
		}
	}
	varKey := isNamed(mt.Key(), "formula", "Variable") || isNamed(mt.Key(), "formula", "Literal") || !isNamed(mt.Key(), "formula", "Formula")
	if !varKey {
		return []dcall{{st, wrap(d.unk(), dUnk{id: d.id(), soft: true})}}, nil
	}
	elem := mt.Elem()
	member := false
	if s, ok := elem.Underlying().(*types.Struct); ok && s.NumFields() == 0 {
		member = true
	}
	if member {
		// a set of literals that are true
		if !x.CommaOk {
			return []dcall{{st, d.unk()}}, nil
		}
		yes, no := st.clone(), st
		var res []dcall
		pos, posKnown := st.pos[kd.id]
		setPos, setKnown := d.polaritySet(x.X)
		if posKnown && setKnown && pos != setPos {
			// no literal of this polarity is in the set
			return []dcall{{st, wrap(dStruct{}, dInt(0))}}, nil
		}
		yes.pc = yes.pc.and(kd.t)
		if d.closed && posKnown && pos {
			no.pc = no.pc.and(kd.t.not())
		}
		if !yes.pc.isFalse() {
			res = append(res, dcall{yes, wrap(dStruct{}, dInt(1))})
		}
		if !no.pc.isFalse() {
			res = append(res, dcall{no, wrap(dStruct{}, dInt(0))})
		}
		return res, nil
	}
	if isFormulaT(elem) || boolT(elem) || isIntT(elem) {
		if isFormulaT(elem) || isIntT(elem) || boolT(elem) {
			v := dval(dDen{kd.t, d.id()})
			if !x.CommaOk {
				return []dcall{{st, v}}, nil
			}
			if d.total {
				return []dcall{{st, wrap(v, dInt(1))}}, nil
			}
			no := st.clone()
			return []dcall{{st, wrap(v, dInt(1))}, {no, wrap(d.unk(), dInt(0))}}, nil
		}
	}
	return []dcall{{st, wrap(d.unk(), dUnk{id: d.id(), soft: true})}}, nil
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// polaritySet: the polarity of the literals in a set of an assignment.
func (d *den) polaritySet(m ssa.Value) (bool, bool) {
	k, _ := valueFieldKey(m, 0)
	b, ok := d.polSet[k]
	return b, ok && k != ""
}

func (d *den) operandTable(st *dst, k dDen, s *types.Struct) (dval, bool) {
	nf, nl := 0, 0
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if isNamed(t, "formula", "Formula") {
			nf++
		} else if sl, ok := t.Underlying().(*types.Slice); ok && isNamed(sl.Elem(), "formula", "Formula") {
			nl++
		} else {
			return nil, false
		}
	}
	ops, ok := d.operands(st, k)
	if !ok {
		return nil, false
	}
	switch {
	case nf == len(ops) && nl == 0:
		return dStruct{append([]dval{}, ops...)}, true
	case nf == 0 && nl == 1:
		return dStruct{[]dval{d.list(st, ops)}}, true
	}
	return nil, false
}

func (d *den) litTable(st *dst, k dDen, s *types.Struct) (dval, *dfork) {
	var out dStruct
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		switch {
		case boolT(t):
			b, ok := st.pos[k.id]
			if !ok {
				return nil, &dfork{dPos{id: k.id}}
			}
			out.f = append(out.f, d.b2i(b))
		case t.Underlying() == types.Typ[types.String]:
			b, ok := st.pos[k.id]
			if !ok {
				return nil, &dfork{dPos{id: k.id}}
			}
			out.f = append(out.f, d.varOf(st, k, b))
		default:
			return nil, nil
		}
	}
	return out, nil
}

// varOf gives the variable (or name) of a literal of known polarity.
func (d *den) varOf(st *dst, k dDen, pos bool) dDen {
	r := dDen{k.t, d.id()}
	if !pos {
		r.t = k.t.not()
	}
	st.pos[r.id] = true
	return r
}

func (d *den) mapUpdate(st *dst, m, k, v dval, x *ssa.MapUpdate) {
	if l, ok := m.(dMap); ok {
		if es, ok := st.heap[l.cell].([]dEntry); ok {
			n := append([]dEntry{}, es...)
			for i, e := range n {
				if eq, known := d.same(st, e.k, k); known && eq {
					n[i].v = v
					st.heap[l.cell] = n
					return
				}
			}
			st.heap[l.cell] = append(n, dEntry{k, v})
		}
		return
	}
	if d.onUpdate != nil {
		d.onUpdate(st, k, v, x)
	}
	kd, ok := k.(dDen)
	if !ok {
		return
	}
	// the number of a variable
	if u, ok := v.(dUnk); ok {
		mt := x.Map.Type().Underlying().(*types.Map)
		if _, has := st.alias[u.id]; !has && isIntT(mt.Elem()) && !isFormulaT(mt.Elem()) && !isNamed(mt.Key(), "formula", "Formula") {
			st.alias[u.id] = dDen{kd.t, d.id()}
		}
		return
	}
	// the operands of a new formula
	s, ok := v.(dStruct)
	if !ok || !isNamed(x.Key.Type(), "formula", "Formula") {
		return
	}
	var ts []tt
	vs := s.f
	if len(vs) == 1 {
		if es, ok := d.elems(st, vs[0]); ok {
			vs = es
		}
	}
	for _, o := range vs {
		t, ok := d.den(st, o)
		if !ok {
			return
		}
		ts = append(ts, t)
	}
	if _, defined := st.ops[kd.id]; defined {
		return
	}
	if t, ok := d.connective(st.mask(kd.id), ts); ok {
		st.pc = st.pc.and(kd.t.iff(t))
		st.ops[kd.id] = vs
	}
}

// ---- calls

func (d *den) unkRes(t types.Type) dval {
	if tup, ok := t.(*types.Tuple); ok {
		s := dStruct{}
		for i := 0; i < tup.Len(); i++ {
			s.f = append(s.f, d.unk())
		}
		return s
	}
	return d.unk()
}

func interesting(v dval) bool {
	switch v.(type) {
	case dDen, dList, dPtr, dSort, dCmp, dMap, dFunc, dStruct:
		return true
	case kNode, kLin, kVarIx, kTerm, kArr, kEntry, kSpec:
		return true
	}
	return false
}

func (d *den) call(it *ditem, cc *ssa.CallCommon, rt types.Type) ([]dcall, *dfork) {
	st := it.st
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return []dcall{{st, d.builtin(it, b.Name(), cc)}}, nil
	}
	var args []dval
	name := ""
	onFactory := false
	var callee *ssa.Function
	if cc.IsInvoke() {
		name = cc.Method.Name()
		onFactory = isNamed(cc.Value.Type(), "formula", "Factory")
		for _, a := range cc.Args {
			args = append(args, d.get(it, a))
		}
		if !onFactory {
			if d.onCall != nil {
				if res, ok := d.onCall(d, cc, name, args, st); ok {
					return res, nil
				}
			}
			if d.emits != nil && d.emitted(st, cc, nil, args) {
				return []dcall{{st, d.unkRes(rt)}}, nil
			}
			some := false
			for _, a := range args {
				some = some || interesting(a)
			}
			if d.loose != nil && some {
				if ts := d.p.Targets(cc); len(ts) > 0 {
					one := canonOf(ts[0])
					for _, t := range ts {
						if unwrap(t) != unwrap(ts[0]) {
							one = nil
							break
						}
						one = unwrap(t)
					}
					if one != nil && len(one.Blocks) > 0 && d.pkgs[pkgOf(one)] {
						return d.inline(it, one, append([]dval{d.unk()}, args...), nil, rt), nil
					}
				}
			}
			return []dcall{{st, d.unkRes(rt)}}, nil
		}
	} else {
		callee = staticCallee(cc)
		var binds []dval
		if callee == nil {
			if f, ok := d.get(it, cc.Value).(dFunc); ok {
				callee = f.fn
				binds = f.binds
			}
		} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			if f, ok := d.get(it, mc).(dFunc); ok {
				binds = f.binds
			}
		}
		for _, a := range cc.Args {
			args = append(args, d.get(it, a))
		}
		if callee == nil {
			return []dcall{{st, d.unkRes(rt)}}, nil
		}
		name = callee.Name()
		if callee.Object() == nil && callee.Parent() != nil {
			return d.inline(it, callee, args, binds, rt), nil
		}
		if pkg := pkgOf(callee); pkg != nil && shortPkg(pkg) == "handler" && len(callee.Blocks) == 1 && callee.Signature.Recv() == nil {
			return d.inline(it, callee, args, nil, rt), nil
		}
		if recv := callee.Signature.Recv(); recv != nil && isNamed(deref(recv.Type()), "formula", "CachingFactory") && exported(callee) && canonOf(callee) != canonOf(d.root) {
			onFactory = true
			args = args[1:]
		}
	}
	if onFactory {
		v, fork, ok := d.factory(it, name, args, rt)
		if fork != nil {
			return nil, fork
		}
		if ok {
			if d.shaped {
				d.shapeResult(st, name, args, v)
			}
			return []dcall{{st, v}}, nil
		}
		return []dcall{{st, d.unkRes(rt)}}, nil
	}
	if d.hyp != nil {
		if res, ok := d.hyp(d, callee, args, st); ok {
			return res, nil
		}
	}
	if d.emits != nil && d.emitted(st, cc, callee, args) {
		return []dcall{{st, d.unkRes(rt)}}, nil
	}
	if d.prims != nil {
		if res, ok := d.prims(d, callee, args, st); ok {
			return res, nil
		}
	}
	if recv := callee.Signature.Recv(); recv != nil && isFormulaT(recv.Type()) {
		if v, fork, ok := d.method(it, name, args, rt); fork != nil {
			return nil, fork
		} else if ok {
			if d.shaped && name == "Negate" {
				d.shapeResult(st, "Not", args, v)
			}
			if d.shaped && isFormulaT(recv.Type()) && !isNamed(recv.Type(), "formula", "Formula") {
				d.literalShape(st, v)
			}
			return []dcall{{st, v}}, nil
		}
		if pkgOf(callee) != nil && inModule(callee) && len(callee.Blocks) > 0 && len(callee.Blocks) < 8 {
			return d.inline(it, callee, args, nil, rt), nil
		}
		return []dcall{{st, d.unkRes(rt)}}, nil
	}
	if pkg := pkgOf(callee); pkg != nil && shortPkg(pkg) == "formula" {
		switch name {
		case "EncodeVariable", "EncodeLiteral":
			return []dcall{{st, args[0]}}, nil
		case "EncodeFormula":
			if s, ok := args[0].(dInt); ok && s >= 0 && s < 10 {
				if dd, ok := args[1].(dDen); ok {
					return []dcall{{st, dd}}, nil
				}
				if v, ok := d.fresh(st).(dDen); ok {
					st.sorts[v.id] = 1 << s
					d.remember(st, v)
					return []dcall{{st, v}}, nil
				}
			}
			return []dcall{{st, d.unk()}}, nil
		}
	}
	if callee.Pkg != nil && callee.Pkg.Pkg.Path() == "slices" || origPkg(callee) == "slices" {
		switch name {
		case "Sort", "SortFunc", "SortStableFunc", "Reverse":
			return []dcall{{st, d.unkRes(rt)}}, nil
		case "Clone":
			if es, ok := d.elems(st, args[0]); ok {
				return []dcall{{st, d.list(st, es)}}, nil
			}
		case "Concat":
			if ls, ok := d.elems(st, args[0]); ok {
				var all []dval
				good := true
				for _, l := range ls {
					es, ok := d.elems(st, l)
					good = good && ok
					all = append(all, es...)
				}
				if good {
					return []dcall{{st, d.list(st, all)}}, nil
				}
			}
		}
	}
	follow := inModule(callee) && len(callee.Blocks) > 0 && len(callee.Blocks) <= 60 && len(d.stack) < 7 && d.pkgs[pkgOf(callee)]
	if follow {
		any := false
		for _, a := range args {
			any = any || interesting(a)
		}
		follow = any || d.loose != nil && recvNamed(callee) != nil && (types.Identical(recvNamed(callee), d.loose) || leaf(callee))
	}
	for _, f := range d.stack {
		if f == callee {
			follow = false
		}
	}
	if follow {
		return d.inline(it, callee, args, nil, rt), nil
	}
	// an unknown function may write to the local variables it is given
	for _, a := range args {
		if p, ok := a.(dPtr); ok && p.idx < 0 {
			if _, isStruct := st.heap[p.cell].(dStruct); !isStruct {
				st.heap[p.cell] = d.unk()
			}
		}
	}
	return []dcall{{st, d.unkRes(rt)}}, nil
}

// emitted records a clause that is given to a solver.
func (d *den) emitted(st *dst, cc *ssa.CallCommon, callee *ssa.Function, args []dval) bool {
	cl, ok := d.emits(cc, callee, args)
	if !ok {
		return false
	}
	es, known := d.elems(st, cl)
	if known {
		es = append([]dval{}, es...)
		for i, e := range es {
			if al, ok := d.asUnkDen(st, d.anyLit(e)); ok {
				es[i] = al
			}
		}
		st.emit = append(st.emit, es)
	} else {
		st.emit = append(st.emit, []dval{d.unk()})
	}
	return true
}

// anyLit: a constant number stands for a literal nothing is known of.
func (d *den) anyLit(v dval) dval {
	if _, ok := v.(dInt); ok {
		return d.unk()
	}
	return v
}

// leaf: a small method that calls nothing.
func leaf(f *ssa.Function) bool {
	if len(f.Blocks) > 8 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(ssa.CallInstruction); ok {
				return false
			}
		}
	}
	return true
}

// unwrap gives the method a synthetic wrapper of an embedded field calls.
func unwrap(f *ssa.Function) *ssa.Function {
	for i := 0; i < 4 && f.Synthetic != ""; i++ {
		var g *ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					g = staticCallee(&c.Call)
				}
			}
		}
		if g == nil || g.Name() != f.Name() {
			break
		}
		f = g
	}
	return f
}

func origPkg(f *ssa.Function) string {
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	return ""
}

func (d *den) inline(it *ditem, callee *ssa.Function, args, binds []dval, rt types.Type) []dcall {
	if len(d.stack) >= 8 {
		return []dcall{{it.st, d.unkRes(rt)}}
	}
	var res []dcall
	for _, o := range d.run(callee, args, binds, it.st.clone()) {
		if o.panic {
			continue
		}
		switch len(o.rets) {
		case 0:
			res = append(res, dcall{o.st, d.unk()})
		case 1:
			res = append(res, dcall{o.st, o.rets[0]})
		default:
			res = append(res, dcall{o.st, dStruct{o.rets}})
		}
	}
	return res
}

func (d *den) builtin(it *ditem, name string, cc *ssa.CallCommon) dval {
	st := it.st
	arg := func(i int) dval { return d.get(it, cc.Args[i]) }
	switch name {
	case "len", "cap":
		if es, ok := d.elems(st, arg(0)); ok {
			return dInt(len(es))
		}
		if m, ok := arg(0).(dMap); ok {
			if es, ok := st.heap[m.cell].([]dEntry); ok {
				return dInt(len(es))
			}
		}
		return d.unk()
	case "delete":
		if m, ok := arg(0).(dMap); ok {
			if es, ok := st.heap[m.cell].([]dEntry); ok {
				var n []dEntry
				for _, e := range es {
					if eq, known := d.same(st, e.k, arg(1)); !known || !eq {
						n = append(n, e)
					}
				}
				st.heap[m.cell] = n
			}
		}
		return d.unk()
	case "clear":
		if m, ok := arg(0).(dMap); ok {
			st.heap[m.cell] = []dEntry{}
		}
		return d.unk()
	case "append":
		a, ok := d.elems(st, arg(0))
		if !ok {
			return d.unk()
		}
		b, ok := d.elems(st, arg(1))
		if !ok {
			// a list of unknown contents
			return d.unk()
		}
		return d.list(st, append(append([]dval{}, a...), b...))
	case "copy":
		if x, ok := arg(0).(kArr); ok {
			if y, ok := arg(1).(kArr); ok {
				for k, v := range st.k.arrs[y.cell] {
					st.k.arrs[x.cell][k] = v
				}
			}
			return d.unk()
		}
		l, ok := arg(0).(dList)
		es, ok2 := d.elems(st, arg(1))
		if ok && ok2 {
			c, _ := st.heap[l.cell].([]dval)
			n := append([]dval{}, c...)
			for i := 0; i < l.n && i < len(es); i++ {
				n[l.off+i] = es[i]
			}
			st.heap[l.cell] = n
		} else if ok {
			st.heap[l.cell] = d.unk()
		}
		return d.unk()
	}
	return d.unk()
}

// method interprets the methods of formulas, literals and variables.
func (d *den) method(it *ditem, name string, args []dval, rt types.Type) (dval, *dfork, bool) {
	st := it.st
	v, ok := args[0].(dDen)
	if !ok {
		return nil, nil, false
	}
	switch name {
	case "Sort":
		m := st.mask(v.id)
		for i := int64(0); i < 10; i++ {
			if m == 1<<i {
				return dInt(i), nil, true
			}
		}
		d.remember(st, v)
		return dSort{v.id}, nil, true
	case "ID":
		return v, nil, true
	case "AsFormula":
		return v, nil, true
	case "AsLiteral", "AsVariable":
		if _, ok := rt.(*types.Tuple); ok {
			return dStruct{[]dval{v, d.unk()}}, nil, true
		}
		return v, nil, true
	case "IsPos", "IsNeg":
		if b, ok := st.pos[v.id]; ok {
			return d.b2i(b == (name == "IsPos")), nil, true
		}
		return dPos{v.id, name == "IsNeg"}, nil, true
	case "Variable":
		b, ok := st.pos[v.id]
		if !ok {
			return nil, &dfork{dPos{id: v.id}}, true
		}
		return d.varOf(st, v, b), nil, true
	case "Negate":
		return d.neg(st, v), nil, true
	}
	return nil, nil, false
}

func (d *den) neg(st *dst, v dDen) dDen {
	r := dDen{v.t.not(), d.id()}
	if b, ok := st.pos[v.id]; ok {
		st.pos[r.id] = !b
	}
	if st.mask(v.id) == 1<<d.sort["SortLiteral"] {
		st.sorts[r.id] = st.mask(v.id)
	}
	if m := st.mask(v.id); m == 1<<d.sort["SortTrue"] {
		st.sorts[r.id] = 1 << d.sort["SortFalse"]
	} else if m == 1<<d.sort["SortFalse"] {
		st.sorts[r.id] = 1 << d.sort["SortTrue"]
	}
	return r
}

// factory interprets the public methods of the formula factory.
func (d *den) factory(it *ditem, name string, args []dval, rt types.Type) (dval, *dfork, bool) {
	st := it.st
	tts := func(vs []dval) ([]tt, bool) {
		var r []tt
		for _, v := range vs {
			t, ok := d.den(st, v)
			if !ok {
				return nil, false
			}
			r = append(r, t)
		}
		return r, true
	}
	nary := func(s string, l dval) (dval, bool) {
		es, ok := d.elems(st, l)
		if !ok {
			return nil, false
		}
		ts, ok := tts(es)
		if !ok {
			// one operand decides
			return nil, false
		}
		if len(es) == 0 {
			return d.konst(s == "SortAnd", st), true
		}
		if x, ok := es[0].(dDen); ok && len(es) == 1 {
			return x, true
		}
		t, _ := d.connective(1<<d.sort[s], ts)
		r := d.of(t)
		m := uint16(0)
		for _, e := range es {
			x, ok := e.(dDen)
			if !ok {
				return r, true
			}
			m |= st.mask(x.id)
		}
		if c := uint16(1<<d.sort["SortTrue"] | 1<<d.sort["SortFalse"]); m&^c == 0 {
			st.sorts[r.(dDen).id] = c
		}
		return r, true
	}
	bin := func(s string, a, b dval) (dval, bool) {
		ts, ok := tts([]dval{a, b})
		if !ok {
			return nil, false
		}
		t, _ := d.connective(1<<d.sort[s], ts)
		return d.of(t), true
	}
	sortName := func(v dval) (string, *dfork) {
		switch x := v.(type) {
		case dInt:
			for n, k := range d.sort {
				if k == int64(x) {
					return n, nil
				}
			}
		case dSort:
			m := st.mask(x.id)
			for _, n := range []string{"SortAnd", "SortOr", "SortImpl", "SortEquiv"} {
				k := d.sort[n]
				if m == 1<<k {
					return n, nil
				}
				if m&(1<<k) != 0 {
					return "", &dfork{dCmp{x.id, 1 << k}}
				}
			}
		}
		return "", nil
	}
	switch name {
	case "Verum":
		return d.konst(true, st), nil, true
	case "Falsum":
		return d.konst(false, st), nil, true
	case "Constant":
		switch x := args[0].(type) {
		case dCmp, dPos, dEq, dIs, dUnk:
			if _, ok := d.truth(st, x); !ok {
				return nil, &dfork{x}, true
			}
		}
		t, ok := d.truth(st, args[0])
		if !ok {
			return nil, nil, false
		}
		if t == ttTrue || t == ttFalse {
			return d.konst(t == ttTrue, st), nil, true
		}
		v := dDen{t, d.id()}
		st.sorts[v.id] = 1<<d.sort["SortTrue"] | 1<<d.sort["SortFalse"]
		return v, nil, true
	case "Not":
		if v, ok := args[0].(dDen); ok {
			return d.neg(st, v), nil, true
		}
	case "And", "Minterm":
		v, ok := nary("SortAnd", args[0])
		return v, nil, ok
	case "Or", "Clause":
		v, ok := nary("SortOr", args[0])
		return v, nil, ok
	case "Implication":
		v, ok := bin("SortImpl", args[0], args[1])
		return v, nil, ok
	case "Equivalence":
		v, ok := bin("SortEquiv", args[0], args[1])
		return v, nil, ok
	case "BinaryOperator", "NaryOperator":
		s, fork := sortName(args[0])
		if fork != nil {
			return nil, fork, true
		}
		var v dval
		ok := false
		if name == "BinaryOperator" && (s == "SortImpl" || s == "SortEquiv") {
			v, ok = bin(s, args[1], args[2])
		}
		if name == "NaryOperator" && (s == "SortAnd" || s == "SortOr") {
			v, ok = nary(s, args[1])
		}
		if ok {
			return dStruct{[]dval{v, dNil{}}}, nil, true
		}
	case "Var", "Variable":
		if v, ok := args[0].(dDen); ok {
			r := dDen{v.t, d.id()}
			st.pos[r.id] = true
			st.sorts[r.id] = 1 << d.sort["SortLiteral"]
			return r, nil, true
		}
	case "Lit", "Literal":
		v, ok := args[0].(dDen)
		if !ok {
			return nil, nil, false
		}
		t, ok := d.truth(st, args[1])
		if !ok {
			return nil, &dfork{args[1]}, true
		}
		r := dDen{v.t.iff(t), d.id()}
		if t == ttTrue || t == ttFalse {
			st.pos[r.id] = t == ttTrue
		}
		st.sorts[r.id] = 1 << d.sort["SortLiteral"]
		return r, nil, true
	case "VarName":
		if v, ok := args[0].(dDen); ok {
			return dStruct{[]dval{v, dInt(1)}}, nil, true
		}
	case "LitNamePhase", "LiteralNamePhase":
		if v, ok := args[0].(dDen); ok {
			b, ok := st.pos[v.id]
			if !ok {
				return nil, &dfork{dPos{id: v.id}}, true
			}
			return dStruct{[]dval{d.varOf(st, v, b), d.b2i(b), dInt(1)}}, nil, true
		}
	case "NotOperand":
		if v, ok := args[0].(dDen); ok && d.single(st, v.id, "SortNot") {
			if ops, ok := d.operands(st, v); ok {
				return dStruct{[]dval{ops[0], dInt(1)}}, nil, true
			}
		}
	case "BinaryLeftRight":
		if v, ok := args[0].(dDen); ok && (d.single(st, v.id, "SortImpl") || d.single(st, v.id, "SortEquiv")) {
			if ops, ok := d.operands(st, v); ok {
				return dStruct{[]dval{ops[0], ops[1], dInt(1)}}, nil, true
			}
		}
	case "NaryOperands", "Operands":
		if v, ok := args[0].(dDen); ok {
			if name == "NaryOperands" && !d.single(st, v.id, "SortAnd") && !d.single(st, v.id, "SortOr") {
				return nil, nil, false
			}
			if ops, ok := d.operands(st, v); ok {
				l := d.list(st, ops)
				if name == "NaryOperands" {
					return dStruct{[]dval{l, dInt(1)}}, nil, true
				}
				return l, nil, true
			}
		}
	case "NewAuxVar":
		v := d.fresh(st)
		if x, ok := v.(dDen); ok {
			st.pos[x.id] = true
			st.sorts[x.id] = 1 << d.sort["SortLiteral"]
		}
		return v, nil, true
	}
	return nil, nil, false
}

// showTT describes a valuation of the operands in f.
func showTT(f tt, names []string) string {
	for v := 0; v < 1<<ttAtoms; v++ {
		if f[v/64]>>(v%64)&1 == 1 {
			var s []string
			for i, n := range names {
				s = append(s, fmt.Sprintf("%s=%d", n, v>>i&1))
			}
			return strings.Join(s, ", ")
		}
	}
	return "none"
}
