package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C14"] = checkC14 }

// A kCase is the analysis of one function of the BDD package for one kind of
// arguments.  The recursive calls are replaced by the induction hypothesis.
type kCase struct {
	rule, fn, name string
	args           func(k *kRun, st *dst) []dval
	check          func(k *kRun, o dout) (bad, open string)
	cut            int
}

// kRun is one analysis.
type kRun struct {
	d       *den
	p       *Program
	fn      *ssa.Function
	ops     map[string]dval // the operands, by the name of their variable
	kp      dval            // the kernel
	bddT    *types.Struct
	bddN    int
	in      []dval // nodes or other values the goal is about
	q       int    // the level of the last variable of the set
	flag    dval
	extra   dval
	onPaths func(st *dst) tt
	table   int // the table of a variable set
}

var boolOps = map[string]func(a, b tt) tt{
	"and":   func(a, b tt) tt { return a.and(b) },
	"or":    func(a, b tt) tt { return a.or(b) },
	"imp":   func(a, b tt) tt { return a.not().or(b) },
	"equiv": func(a, b tt) tt { return a.iff(b) },
}

// bddOperands reads the initial values of the operand tables of the package.
func bddOperands(p *Program) map[string]dval {
	out := map[string]dval{}
	pkg := p.pkg("bdd")
	if pkg == nil {
		return out
	}
	init := pkg.Func("init")
	if init == nil {
		return out
	}
	// the package is initialised by straight-line code
	mem := map[ssa.Value]dval{}
	val := map[ssa.Value]dval{}
	addr := func(a ssa.Value) (ssa.Value, []int) {
		var path []int
		for {
			switch x := a.(type) {
			case *ssa.FieldAddr:
				path = append([]int{x.Field}, path...)
				a = x.X
			case *ssa.IndexAddr:
				i, ok := x.Index.(*ssa.Const)
				if !ok {
					return nil, nil
				}
				path = append([]int{int(i.Int64())}, path...)
				a = x.X
			case *ssa.Global, *ssa.Alloc:
				return a, path
			default:
				return nil, nil
			}
		}
	}
	cur := func(r ssa.Value) dval {
		if v, ok := mem[r]; ok {
			return v
		}
		return zeroNum(deref(r.Type()))
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if r, path := addr(x.X); r != nil && x.Op == token.MUL {
					v := cur(r)
					for _, i := range path {
						if s, ok := v.(dStruct); ok && i < len(s.f) {
							v = s.f[i]
						}
					}
					val[x] = v
				}
			case *ssa.Store:
				r, path := addr(x.Addr)
				if r == nil {
					continue
				}
				v, ok := val[x.Val]
				if k, isConst := x.Val.(*ssa.Const); isConst && k.Value != nil && isNumber(k) {
					v, ok = dInt(k.Int64()), true
				}
				if ok {
					mem[r] = setPath(cur(r), path, v)
				}
			}
		}
	}
	for r, v := range mem {
		if g, ok := r.(*ssa.Global); ok {
			out[g.Name()] = v
		}
	}
	return out
}

func isNumber(k *ssa.Const) bool {
	b, ok := k.Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func zeroNum(t types.Type) dval {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := dStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, zeroNum(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		s := dStruct{}
		for i := int64(0); i < u.Len() && i < 64; i++ {
			s.f = append(s.f, zeroNum(u.Elem()))
		}
		return s
	}
	return dInt(0)
}

func setPath(v dval, path []int, x dval) dval {
	if len(path) == 0 {
		return x
	}
	s, ok := v.(dStruct)
	if !ok || path[0] >= len(s.f) {
		return v
	}
	n := dStruct{append([]dval{}, s.f...)}
	n.f[path[0]] = setPath(n.f[path[0]], path[1:], x)
	return n
}

// opTable is the truth table of an operand.
func opTable(v dval) ([4]bool, bool) {
	var t [4]bool
	s, ok := v.(dStruct)
	if !ok {
		return t, false
	}
	for _, f := range s.f {
		var l []dval
		switch x := f.(type) {
		case dStruct:
			l = x.f
		case []dval:
			l = x
		}
		if len(l) != 4 {
			continue
		}
		for i, e := range l {
			n, ok := e.(dInt)
			if !ok {
				return t, false
			}
			t[i] = n != 0
		}
		return t, true
	}
	return t, false
}

func applyTable(t [4]bool, a, b tt) tt {
	r := ttFalse
	for i := 0; i < 4; i++ {
		if !t[i] {
			continue
		}
		x, y := a, b
		if i&2 == 0 {
			x = a.not()
		}
		if i&1 == 0 {
			y = b.not()
		}
		r = r.or(x.and(y))
	}
	return r
}

func (p *Program) pkg(short string) *ssa.Package {
	for _, f := range p.Funcs {
		if f.Pkg != nil && f.Pkg.Pkg != nil && shortPkg(f.Pkg.Pkg) == short && inModule(f) {
			return f.Pkg
		}
	}
	return nil
}

func newKRun(p *Program, df *denFacts, fn *ssa.Function, ops map[string]dval) (*kRun, *dst) {
	d := newDen(p, df)
	d.root = fn
	d.kern = true
	d.cut = 4
	d.pkgs[pkgOf(fn)] = true
	st := newDst()
	st.k = newKst()
	k := &kRun{d: d, p: p, fn: fn, ops: ops}
	for name, v := range ops {
		c := d.id()
		st.heap[c] = v
		st.lazy["g"+pkgOf(fn).Path()+"."+name] = c
	}
	// the kernel
	if kt := p.Type("bdd", "Kernel"); kt != nil {
		s := kt.Underlying().(*types.Struct)
		k.q = st.k.newLvl()
		st.k.memo["quantlast"] = k.q
		v := dStruct{}
		for i := 0; i < s.NumFields(); i++ {
			var f dval = d.unk()
			switch n := s.Field(i).Name(); n {
			case "var2idx", "idx2var", "nodes", "vars", "quantvarset", "level2var", "var2level":
				f = kSpec{n}
			case "quantvarsetId":
				f = kSgn{1}
			case "quantlast":
				f = kLin{k.q, 0, 0}
			case "varnum":
				f = kLin{lvlTop, 0, 0}
			case "refstacktop":
				f = dInt(2)
			case "refstack":
				vs := make([]dval, 14)
				for i := range vs {
					vs[i] = d.unk()
				}
				f = d.list(st, vs)
			}
			v.f = append(v.f, f)
		}
		c := d.id()
		st.heap[c] = v
		k.kp = dPtr{c, -1}
	}
	if bt := p.Type("bdd", "BDD"); bt != nil {
		k.bddT = bt.Underlying().(*types.Struct)
		for i := 0; i < k.bddT.NumFields(); i++ {
			if k.bddT.Field(i).Name() == "Index" {
				k.bddN = i
			}
		}
	}
	d.prims = k.prims
	d.onCall = k.invoke
	return k, st
}

func (k *kRun) kernelField(st *dst, name string, v dval) {
	s := k.p.Type("bdd", "Kernel").Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			k.d.store(st, dPtr{k.kp.(dPtr).cell, i}, v)
		}
	}
}

func (k *kRun) kernelGet(st *dst, name string) dval {
	s := k.p.Type("bdd", "Kernel").Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return k.d.load(st, dPtr{k.kp.(dPtr).cell, i})
		}
	}
	return k.d.unk()
}

// bdd is a BDD on the kernel.
func (k *kRun) bdd(st *dst, node dval) dval {
	v := dStruct{make([]dval, k.bddT.NumFields())}
	for i := range v.f {
		v.f[i] = k.kp
	}
	v.f[k.bddN] = node
	c := k.d.id()
	st.heap[c] = v
	return dPtr{c, -1}
}

func (k *kRun) index(st *dst, v dval) dval {
	if p, ok := v.(dPtr); ok {
		if s, ok := st.heap[p.cell].(dStruct); ok && k.bddN < len(s.f) {
			return s.f[k.bddN]
		}
	}
	return k.d.unk()
}

// keyed is the node a function of the variable set gives for a node.
func (k *kRun) keyed(st *dst, what string, id int) dval {
	if m := st.k.nodes[id].mask; m == kZero || m == kOne {
		return kNode{id}
	}
	key := fmt.Sprint(what, "|", id)
	if n, ok := st.k.memo[key]; ok {
		return kNode{n}
	}
	t, ok := k.d.atom(st)
	if !ok {
		k.d.lost = "too many atoms"
		return k.d.unk()
	}
	n := k.d.node(st, knode{t: t, lbs: []int{id}}).(kNode)
	st.k.memo[key] = n.id
	return n
}

func opName(v dval) string {
	t, ok := opTable(v)
	if !ok {
		return "?"
	}
	return fmt.Sprint(t)
}

func isKernelMethod(g *ssa.Function) bool {
	recv := g.Signature.Recv()
	return recv != nil && isNamed(deref(recv.Type()), "bdd", "Kernel")
}

// withReorder: the function may ask for a reordering.
func (k *kRun) withReorder(st *dst, v dval) ([]dcall, bool) {
	if st.k.still {
		return []dcall{{st, dStruct{[]dval{v, dInt(0)}}}}, true
	}
	o := st.clone()
	o.k.reord = true
	return []dcall{{st, dStruct{[]dval{v, dInt(0)}}}, {o, dStruct{[]dval{dInt(-1), dInt(1)}}}}, true
}

func (k *kRun) invoke(d *den, cc *ssa.CallCommon, name string, args []dval, st *dst) ([]dcall, bool) {
	if name == "ShouldResume" {
		return []dcall{{st, dInt(1)}}, true
	}
	return nil, false
}

func (k *kRun) prims(d *den, g *ssa.Function, args []dval, st *dst) ([]dcall, bool) {
	if g.Pkg != nil {
		switch g.Pkg.Pkg.Path() {
		case "math/big":
			return k.bigPrims(d, g, args, st)
		case "math":
			if g.Name() == "Abs" {
				switch x := args[0].(type) {
				case kSgn:
					if x.s < 0 {
						x.s = 1
					}
					return []dcall{{st, x}}, true
				case dInt:
					if x < 0 {
						x = -x
					}
					return []dcall{{st, x}}, true
				}
			}
			return nil, false
		}
		switch {
		case g.Name() == "VariablesAsLiterals":
			return []dcall{{st, args[0]}}, true
		case g.Name() == "New" && shortPkg(g.Pkg.Pkg) == "model":
			st.k.evs = append(st.k.evs, kEvent{what: "model", args: args})
			es, ok := d.elems(st, args[0])
			if ok {
				st.k.evs[len(st.k.evs)-1].args = append([]dval{}, es...)
			} else {
				st.k.evs[len(st.k.evs)-1].what = "model?"
			}
			c := d.id()
			st.heap[c] = dStruct{[]dval{d.unk()}}
			return []dcall{{st, dPtr{c, -1}}}, true
		}
	}
	if pkgOf(g) != nil && shortPkg(pkgOf(g)) == "formula" && g.Name() == "Sprint" {
		return []dcall{{st, kTerm{"name of " + keyOf(args[0])}}}, true
	}
	if pkgOf(g) == nil || shortPkg(pkgOf(g)) != "bdd" {
		return nil, false
	}
	if res := g.Signature.Results(); res.Len() == 1 && isNamed(deref(res.At(0).Type()), "bdd", "cacheEntry") {
		return []dcall{{st, kEntry{d.id()}}}, true
	}
	node := func(i int) (int, bool) {
		if i >= len(args) {
			return 0, false
		}
		return nodeID(args[i])
	}
	if g.Name() == "CompileLiterals" && g != k.fn {
		if es, ok := d.elems(st, args[0]); ok && len(es) == 0 {
			return []dcall{{st, k.bdd(st, dInt(1))}}, true
		}
		key := "cube " + keyOf(args[0])
		id, ok := st.k.memo[key]
		if !ok {
			n, ok := d.freshNode(st).(kNode)
			if !ok {
				return nil, false
			}
			id = n.id
			st.k.memo[key] = id
		}
		return []dcall{{st, k.bdd(st, kNode{id})}}, true
	}
	if g.Name() == "generateAllModels" && len(args) > 4 {
		e := kEvent{what: "generate", args: args}
		if es, ok := d.elems(st, args[2]); ok {
			e.arr = map[string]dval{}
			for i, x := range es {
				e.arr[fmt.Sprint(i)] = x
			}
		}
		st.k.evs = append(st.k.evs, e)
		return []dcall{{st, d.unk()}}, true
	}
	if g.Name() == "createModel" && g != k.fn {
		n, _ := nodeID(args[1])
		st.k.evs = append(st.k.evs, kEvent{what: "create", id: n})
		c := d.id()
		st.heap[c] = dStruct{[]dval{d.unk()}}
		return []dcall{{st, dStruct{[]dval{dPtr{c, -1}, dNil{}}}}}, true
	}
	if g.Name() == "buildBDDNode" {
		return []dcall{{st, kTerm{"node " + keyOf(args[0])}}}, true
	}
	if g.Name() == "containsModel" {
		return []dcall{{st, dInt(0)}}, true
	}
	if g.Name() == "enableReorder" || g.Name() == "disableReorder" {
		st.k.still = g.Name() == "disableReorder"
		return []dcall{{st, d.unk()}}, true
	}
	if !isKernelMethod(g) {
		return nil, false
	}
	one := func(v dval) ([]dcall, bool) { return []dcall{{st, v}}, true }
	a, okA := node(1)
	b, okB := node(2)
	na, nb := st.k.nodes[a], st.k.nodes[b]
	self := canonOf(g) == canonOf(k.fn)
	switch g.Name() {
	case "makeNode", "makeNodeUnsafe":
		l, ok := linOf(args[1])
		lo, ok2 := node(2)
		hi, ok3 := node(3)
		if !ok || !ok2 || !ok3 {
			break
		}
		r, ok := d.makeNode(st, l, lo, hi)
		if !ok {
			break
		}
		if g.Name() == "makeNodeUnsafe" {
			return one(r)
		}
		return k.withReorder(st, r)
	case "applyRec":
		if !okA || !okB || len(args) < 4 {
			break
		}
		t, ok := opTable(args[3])
		if !ok {
			break
		}
		return k.withReorder(st, d.node(st, knode{t: applyTable(t, na.t, nb.t), lbs: []int{a, b}}))
	case "notRec":
		if okA {
			return k.withReorder(st, d.node(st, knode{t: na.t.not(), lbs: []int{a}}))
		}
	case "restrictRec":
		if okA && (!self || keyOf(args[2]) == keyOf(k.extra)) {
			set := st.k.set
			if self {
				set = "self"
			}
			return k.withReorder(st, k.keyed(st, "restrict|"+set, a))
		}
	case "quantRec":
		if okA && (!self || keyOf(args[3]) == keyOf(k.extra)) {
			set := st.k.set
			if self {
				set = "self"
			}
			return k.withReorder(st, k.keyed(st, "quant|"+opName(args[2])+"|"+set, a))
		}
	case "varset2svartable", "varset2vartable":
		if okA {
			st.k.set = fmt.Sprint(g.Name(), a)
			return one(d.unk())
		}
	case "addRef":
		return one(dStruct{[]dval{args[1], dUnk{id: -1}}})
	case "delRef", "checkReorder":
		return one(d.unk())
	case "getOrAddVarIndex":
		if v, ok := args[1].(dDen); ok {
			return one(d.indexOf(st, v))
		}
	case "satOneRec", "fullSatOneRec", "satOneSetRec":
		if !okA {
			break
		}
		v := 0
		key := fmt.Sprint(g.Name(), "|", a)
		if g.Name() == "satOneSetRec" {
			if !okB || self && keyOf(args[3]) != keyOf(k.extra) {
				break
			}
			v = b
			key += fmt.Sprint("|", b)
		}
		if na.mask == kZero {
			return one(dInt(0))
		}
		if id, ok := st.k.memo[key]; ok {
			return one(kNode{id})
		}
		var more []dcall
		if na.mask&kZero != 0 {
			o := st.clone()
			if d.kind(o, a, kZero) && !o.pc.isFalse() {
				more = []dcall{{o, dInt(0)}}
			}
			if !d.kind(st, a, kOne|kInner) {
				return more, true
			}
			na = st.k.nodes[a]
		}
		t, ok := d.atom(st)
		if !ok {
			break
		}
		n := knode{t: t, mask: na.mask &^ kZero, lbs: []int{a}, cube: true}
		st.pc = st.pc.and(t.not().or(na.t))
		if g.Name() == "satOneSetRec" {
			n.lbs = append(n.lbs, v)
			n.men = fmt.Sprintf("C%d;", v)
			n.mask = na.mask & kInner
			if na.mask&kOne != 0 && nb.mask&kInner != 0 {
				n.mask |= kInner
			}
			if na.mask&kOne != 0 && nb.mask&(kOne|kZero) != 0 {
				n.mask |= kOne
			}
			if nb.mask&kInner == 0 {
				n.lbs = n.lbs[:1]
			}
			st.k.evs = append(st.k.evs, kEvent{what: "polarity", args: args[3:4]})
		}
		if n.mask == kOne {
			return append(more, dcall{st, dInt(1)}), true
		}
		if g.Name() == "fullSatOneRec" {
			n.lvl = na.lvl
		}
		r := d.node(st, n).(kNode)
		st.k.memo[key] = r.id
		return append(more, dcall{st, r}), true
	case "allSatRec", "allUnsatRec":
		if !okA || len(args) < 4 {
			break
		}
		e := kEvent{what: g.Name(), id: a, args: args[2:3]}
		if arr, ok := k.profile(st, args[3]); ok {
			e.arr = cpM(st.k.arrs[arr.cell])
		}
		st.k.evs = append(st.k.evs, e)
		if p, ok := args[2].(dPtr); ok && !self {
			d.store(st, p, d.list(st, []dval{kTerm{"the paths"}}))
		}
		return one(d.unk())
	case "supportRec", "varProfileRec", "markCount":
		if okA && self {
			st.k.evs = append(st.k.evs, kEvent{what: "visit", id: a})
			return one(kTerm{fmt.Sprint("nodes of ", a)})
		}
	case "allSat", "allUnsat":
		if okA && !self {
			st.k.evs = append(st.k.evs, kEvent{what: g.Name(), id: a})
			if k.onPaths != nil {
				t := na.t
				if g.Name() == "allUnsat" {
					t = t.not()
				}
				st.pc = st.pc.and(t.iff(k.onPaths(st)))
			}
			return one(k.extra)
		}
	case "satCountRec":
		if okA {
			return one(k.stored(st, a, st.count("models", a)))
		}
	case "pathCountRecOne":
		if okA {
			return one(k.stored(st, a, st.count("one", a)))
		}
	case "pathCountRecZero":
		if okA {
			return one(k.stored(st, a, st.count("zero", a)))
		}
	case "toFormulaRec":
		if id, ok := node(2); ok && len(args) > 3 {
			t := st.k.nodes[id].t
			st.k.evs = append(st.k.evs, kEvent{what: "flag", args: []dval{args[3]}})
			switch f := args[3].(type) {
			case dInt:
				if f == 0 {
					t = t.not()
				}
				return one(d.of(t))
			case dUnk:
				return one(dDen{t, d.id()}) // only the flag is of interest
			}
		}
	case "allNodes":
		if okA && !self {
			return one(k.extra)
		}
	case "gbc", "resizeDoIt":
	default:
		return nil, false
	}
	if self {
		return nil, false
	}
	// what the operation does with operands that are not known
	if n := g.Signature.Results().Len(); n > 1 {
		r := dStruct{}
		for i := 0; i < n; i++ {
			r.f = append(r.f, d.unk())
		}
		return one(r)
	}
	return one(d.unk())
}

// profile is the array an array pointer, or an array, stands for.
func (k *kRun) profile(st *dst, v dval) (kArr, bool) {
	if p, ok := v.(dPtr); ok {
		v = k.d.load(st, p)
	}
	a, ok := v.(kArr)
	return a, ok
}

func (k *kRun) big(st *dst, p kPoly) dval {
	c := k.d.id()
	st.heap[c] = p
	return dPtr{c, -1}
}

// stored is a count that is also in a cache.
func (k *kRun) stored(st *dst, id int, p kPoly) dval {
	v := k.big(st, p).(dPtr)
	if st.k.nodes[id].mask&kInner != 0 {
		st.k.memo[storedKey(v.cell)] = 1
	}
	return v
}

func storedKey(cell int) string { return fmt.Sprint("stored ", cell) }

func (k *kRun) bigPrims(d *den, g *ssa.Function, args []dval, st *dst) ([]dcall, bool) {
	val := func(i int) (kPoly, bool) {
		if i < len(args) {
			if p, ok := args[i].(dPtr); ok {
				v, ok := st.heap[p.cell].(kPoly)
				return v, ok
			}
		}
		return kPoly{}, false
	}
	set := func(v dval) ([]dcall, bool) {
		if p, ok := args[0].(dPtr); ok {
			if st.k.memo[storedKey(p.cell)] == 1 {
				st.k.evs = append(st.k.evs, kEvent{what: "count changed"})
			}
			st.heap[p.cell] = v
			return []dcall{{st, p}}, true
		}
		return []dcall{{st, d.unk()}}, true
	}
	switch g.Name() {
	case "NewInt":
		c := d.id()
		switch x := args[0].(type) {
		case dInt:
			st.heap[c] = polyConst(int(x))
		case kLin:
			st.heap[c] = kBigLin{x}
		case kNode:
			if st.k.nodes[x.id].mask&kInner == 0 {
				st.heap[c] = polyShow(map[string]int{fmt.Sprintf("models%d", x.id): 1})
				switch st.k.nodes[x.id].mask {
				case kOne:
					st.heap[c] = polyConst(1)
				case kZero:
					st.heap[c] = polyConst(0)
				}
			} else {
				st.heap[c] = d.unk()
			}
		default:
			st.heap[c] = d.unk()
		}
		return []dcall{{st, dPtr{c, -1}}}, true
	case "Add", "Mul", "Set", "Sub":
		a, ok1 := val(1)
		b, ok2 := val(2)
		switch {
		case g.Name() == "Set" && ok1:
			return set(a)
		case g.Name() == "Add" && ok1 && ok2:
			return set(polyAdd(a, b))
		case g.Name() == "Sub" && ok1 && ok2:
			return set(polyAdd(a, polyMul(polyConst(-1), b)))
		case g.Name() == "Mul" && ok1 && ok2:
			return set(polyMul(a, b))
		}
		return set(d.unk())
	case "Lsh":
		a, ok := val(1)
		if l, ok2 := linOf(args[2]); ok && ok2 {
			return set(polyMul(a, st.k.pow2(l)))
		}
		return set(d.unk())
	case "Exp":
		b, ok := val(1)
		if ok && b == polyConst(2) {
			if p, ok := args[2].(dPtr); ok {
				switch e := st.heap[p.cell].(type) {
				case kBigLin:
					return set(st.k.pow2(e.l))
				case kPoly:
					for n := 0; n < 5; n++ {
						if e == polyConst(n) {
							return set(st.k.pow2(kLin{0, 0, n}))
						}
					}
				}
			}
		}
		return set(d.unk())
	}
	return nil, false
}

// ---- the goals

// wantTT judges the meaning of a node.
func (k *kRun) wantTT(o dout, v dval, want tt) (string, string) {
	id, ok := nodeID(v)
	if !ok {
		return "", fmt.Sprintf("unknown result %T", v)
	}
	got := o.st.k.nodes[id].t
	if diff := o.st.pc.and(got.iff(want).not()); !diff.isFalse() {
		if o.st.guess {
			return "", "depends on an unknown condition"
		}
		return "the result denotes another function (" + k.p.pos(o.ret.Pos()) + ")", ""
	}
	return "", ""
}

// rec1 judges the result of a recursive operation with a reorder flag.
func (k *kRun) rec(o dout, want func(st *dst) []tt) (string, string) {
	if len(o.rets) < 2 {
		return "", "unknown results"
	}
	r, known := k.d.truth(o.st, o.rets[1])
	if !known {
		return "", "unknown result"
	}
	if o.st.k.reord {
		if r == ttFalse {
			return "a request to reorder is not passed on", ""
		}
		return "skip", ""
	}
	if r != ttFalse {
		return "", "asks for a reordering itself"
	}
	if _, ok := o.rets[0].(kCached); ok {
		return "skip", ""
	}
	for _, w := range want(o.st) {
		if bad, open := k.wantTT(o, o.rets[0], w); bad != "" || open != "" {
			return bad, open
		}
	}
	if o.st.k.disor != "" && !o.st.guess {
		return o.st.k.disor, ""
	}
	return "", ""
}

func (k *kRun) n(st *dst, i int) knode {
	id, _ := nodeID(k.in[i])
	return st.k.nodes[id]
}

func (k *kRun) cases() []*kCase {
	var cs []*kCase
	add := func(rule, fn, name string, args func(k *kRun, st *dst) []dval, check func(k *kRun, o dout) (string, string)) {
		cs = append(cs, &kCase{rule: rule, fn: fn, name: name, args: args, check: check})
	}
	two := func(k *kRun, st *dst) {
		k.in = []dval{k.d.freshNode(st), k.d.freshNode(st)}
	}
	opNames := map[string]string{}
	for g, v := range k.ops {
		if t, ok := opTable(v); ok {
			opNames[g] = fmt.Sprint(t)
		}
	}
	var gs []string
	for g := range opNames {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	tab := func(f func(a, b tt) tt) [4]bool {
		var r [4]bool
		for i := range r {
			a, b := ttFalse, ttFalse
			if i&2 != 0 {
				a = ttTrue
			}
			if i&1 != 0 {
				b = ttTrue
			}
			r[i] = f(a, b) == ttTrue
		}
		return r
	}
	for _, g := range gs {
		g := g
		t, _ := opTable(k.ops[g])
		binary := false
		for _, f := range boolOps {
			binary = binary || tab(f) == t
		}
		if !binary {
			continue // the negation is unary
		}
		add("operator", "Kernel.applyRec", g, func(k *kRun, st *dst) []dval {
			two(k, st)
			return []dval{k.kp, k.in[0], k.in[1], k.ops[g]}
		}, func(k *kRun, o dout) (string, string) {
			t, _ := opTable(k.ops[g])
			return k.rec(o, func(st *dst) []tt { return []tt{applyTable(t, k.n(st, 0).t, k.n(st, 1).t)} })
		})
	}
	add("operator", "Kernel.notRec", "", func(k *kRun, st *dst) []dval {
		two(k, st)
		return []dval{k.kp, k.in[0]}
	}, func(k *kRun, o dout) (string, string) {
		return k.rec(o, func(st *dst) []tt { return []tt{k.n(st, 0).t.not()} })
	})
	// the operations of a variable set
	setGoal := func(k *kRun, st *dst, what string, op *[4]bool) []tt {
		n := k.n(st, 0)
		if n.mask == kZero || n.mask == kOne {
			return []tt{n.t}
		}
		last := st.k.memo["quantlast"]
		if st.k.le(kLin{last, n.lvl, 0}, -1) {
			return []tt{n.t}
		}
		if n.mask != kInner {
			return nil
		}
		id, _ := nodeID(k.in[0])
		if !k.d.expand(st, id) {
			return nil
		}
		n = st.k.nodes[id]
		x, _ := k.d.levelVar(st, kLin{n.lvl, 0, 0})
		lo, ok1 := nodeID(k.keyed(st, what, n.lo))
		hi, ok2 := nodeID(k.keyed(st, what, n.hi))
		if !ok1 || !ok2 {
			return nil
		}
		l, h := st.k.nodes[lo].t, st.k.nodes[hi].t
		q := fmt.Sprint("in", kLin{n.lvl, 0, 0})
		in, known := st.bools[q]
		neg, knownN := st.bools["neg"+q]
		var out []tt
		if !known || !in {
			out = append(out, x.and(h).or(x.not().and(l)))
		}
		if !known || in {
			if op != nil {
				if !knownN || !neg {
					out = append(out, applyTable(*op, l, h))
				}
			} else {
				if !knownN || !neg {
					out = append(out, h)
				}
				if !knownN || neg {
					out = append(out, l)
				}
			}
		}
		return out
	}
	add("operator", "Kernel.restrictRec", "", func(k *kRun, st *dst) []dval {
		two(k, st)
		k.extra = kTerm{"id"}
		return []dval{k.kp, k.in[0], k.extra}
	}, func(k *kRun, o dout) (string, string) {
		return k.rec(o, func(st *dst) []tt { return setGoal(k, st, "restrict|self", nil) })
	})
	for _, g := range gs {
		g := g
		t, _ := opTable(k.ops[g])
		if t != tab(boolOps["and"]) && t != tab(boolOps["or"]) {
			continue
		}
		add("operator", "Kernel.quantRec", g, func(k *kRun, st *dst) []dval {
			two(k, st)
			k.extra = kTerm{"id"}
			return []dval{k.kp, k.in[0], k.ops[g], k.extra}
		}, func(k *kRun, o dout) (string, string) {
			t, _ := opTable(k.ops[g])
			return k.rec(o, func(st *dst) []tt { return setGoal(k, st, "quant|"+opName(k.ops[g])+"|self", &t) })
		})
	}
	// the exported operators
	wrap := func(fn string, nargs int, want func(k *kRun, st *dst) (tt, bool)) {
		add("operator", fn, "", func(k *kRun, st *dst) []dval {
			two(k, st)
			st.k.set = "none"
			args := []dval{k.bdd(st, k.in[0])}
			for i := 1; i <= nargs; i++ {
				args = append(args, k.bdd(st, k.in[i]))
			}
			return args
		}, func(k *kRun, o dout) (string, string) {
			if len(o.rets) == 0 {
				return "", "unknown result"
			}
			w, ok := want(k, o.st)
			if !ok {
				return "", "too many cases"
			}
			return k.wantTT(o, k.index(o.st, o.rets[0]), w)
		})
	}
	bin := func(fn string, f func(a, b tt) tt) {
		wrap(fn, 1, func(k *kRun, st *dst) (tt, bool) { return f(k.n(st, 0).t, k.n(st, 1).t), true })
	}
	bin("BDD.And", boolOps["and"])
	bin("BDD.Or", boolOps["or"])
	bin("BDD.Implies", boolOps["imp"])
	bin("BDD.ImpliedBy", func(a, b tt) tt { return boolOps["imp"](b, a) })
	bin("BDD.Equivalence", boolOps["equiv"])
	wrap("BDD.Negate", 0, func(k *kRun, st *dst) (tt, bool) { return k.n(st, 0).t.not(), true })
	quant := func(fn, what, table string) {
		add("operator", fn, "no variable", func(k *kRun, st *dst) []dval {
			two(k, st)
			st.k.set = "none"
			k.extra = k.d.list(st, nil)
			return []dval{k.bdd(st, k.in[0]), k.extra}
		}, func(k *kRun, o dout) (string, string) {
			if len(o.rets) == 0 {
				return "", "unknown result"
			}
			return k.wantTT(o, k.index(o.st, o.rets[0]), k.n(o.st, 0).t)
		})
		add("operator", fn, "", func(k *kRun, st *dst) []dval {
			two(k, st)
			st.k.set = "none"
			k.extra = k.d.list(st, []dval{k.d.fresh(st)})
			return []dval{k.bdd(st, k.in[0]), k.extra}
		}, func(k *kRun, o dout) (string, string) {
			if len(o.rets) == 0 {
				return "", "unknown result"
			}
			cube, ok := o.st.k.memo["cube "+keyOf(k.extra)]
			if !ok {
				return "", "the variables are not compiled by CompileLiterals"
			}
			id, _ := nodeID(k.in[0])
			if m := o.st.k.nodes[cube].mask; m&kInner == 0 {
				return k.wantTT(o, k.index(o.st, o.rets[0]), o.st.k.nodes[id].t)
			}
			w, ok := nodeID(k.keyed(o.st, fmt.Sprint(what, "|", table, cube), id))
			if !ok {
				return "", "too many cases"
			}
			return k.wantTT(o, k.index(o.st, o.rets[0]), o.st.k.nodes[w].t)
		})
	}
	quant("BDD.Restrict", "restrict", "varset2svartable")
	quant("BDD.Exists", "quant|"+fmt.Sprint(tab(boolOps["or"])), "varset2vartable")
	quant("BDD.ForAll", "quant|"+fmt.Sprint(tab(boolOps["and"])), "varset2vartable")
	// the tables of a variable set
	for _, fn := range []string{"Kernel.varset2svartable", "Kernel.varset2vartable"} {
		for m := 0; m < 1<<3; m++ {
			for n := 1; n <= 3; n++ {
				if m >= 1<<n || fn == "Kernel.varset2vartable" && m != 0 {
					continue
				}
				m, n, fn := m, n, fn
				for _, start := range []int{5, 1<<31 - 2} {
					start := start
					add("variable-set", fn, fmt.Sprintf("%d literals", n), func(k *kRun, st *dst) []dval {
						k.in = nil
						next := nodeOne
						for i := n - 1; i >= 0; i-- {
							t, _ := k.d.atom(st)
							nd := knode{t: t, mask: kInner, lvl: st.k.newLvl(), lo: nodeZero, hi: next}
							if m>>i&1 == 1 {
								nd.lo, nd.hi = next, nodeZero
							}
							st.k.addLe(st, kLin{nd.lvl, st.k.nodes[next].lvl, 1})
							id := k.d.node(st, nd).(kNode)
							k.in = append([]dval{id}, k.in...)
							next = id.id
						}
						arr := st.newArr(k.d)
						k.table = arr.cell
						k.kernelField(st, "quantvarset", arr)
						k.kernelField(st, "quantvarsetId", dInt(start))
						k.kernelField(st, "quantlast", dInt(-1))
						return []dval{k.kp, k.in[0]}
					}, func(k *kRun, o dout) (string, string) {
						set, ok := k.kernelGet(o.st, "quantvarset").(kArr)
						id, ok2 := k.kernelGet(o.st, "quantvarsetId").(dInt)
						last, ok3 := linOf(k.kernelGet(o.st, "quantlast"))
						if !ok || !ok2 || !ok3 || o.st.guess {
							return "", "unknown tables"
						}
						if id <= 0 {
							return "the number of the variable set is not positive", ""
						}
						if int(id) == start && set.cell == k.table {
							return "the number of an earlier variable set is used again", ""
						}
						cells := o.st.k.arrs[set.cell]
						for i, v := range k.in {
							nd := o.st.k.nodes[v.(kNode).id]
							l := kLin{nd.lvl, 0, 0}
							want := id
							if m>>i&1 == 1 {
								want = -id
							}
							if cells[keyOf(l)] != dval(want) {
								return "a literal of the set is not recorded with its sign", ""
							}
							if e, ok := subLin(l, last); !ok || !o.st.k.le(e, 0) {
								return "the last level of the set is above one of its variables", ""
							}
						}
						if len(cells) != n {
							return "a variable that is not in the set is recorded", ""
						}
						return "", ""
					})
				}
			}
		}
	}
	// literals
	for n := 0; n <= 3; n++ {
		n := n
		add("literals", "CompileLiterals", fmt.Sprintf("%d literals", n), func(k *kRun, st *dst) []dval {
			k.in = nil
			for i := 0; i < n; i++ {
				t, _ := k.d.atom(st)
				v := dDen{t, k.d.id()}
				st.sorts[v.id] = 1 << k.d.sort["SortLiteral"]
				k.in = append(k.in, v)
			}
			return []dval{k.d.list(st, k.in), k.kp}
		}, func(k *kRun, o dout) (string, string) {
			if len(o.rets) == 0 {
				return "", "unknown result"
			}
			w := ttTrue
			for _, l := range k.in {
				w = w.and(l.(dDen).t)
			}
			return k.wantTT(o, k.index(o.st, o.rets[0]), w)
		})
	}
	add("literals", "Kernel.setNumberOfVars", "", func(k *kRun, st *dst) []dval {
		k.kernelField(st, "varnum", dInt(0))
		return []dval{k.kp, dInt(2)}
	}, func(k *kRun, o dout) (string, string) {
		if n, ok := k.kernelGet(o.st, "varnum").(dInt); !ok || n != 2 || o.st.guess {
			return "", "unknown number of variables"
		}
		vars, ok := k.d.elems(o.st, k.kernelGet(o.st, "vars"))
		l2v, ok2 := k.d.elems(o.st, k.kernelGet(o.st, "level2var"))
		v2l, ok3 := k.d.elems(o.st, k.kernelGet(o.st, "var2level"))
		if !ok || !ok2 || !ok3 || len(vars) < 4 || len(l2v) < 2 || len(v2l) < 2 {
			return "", "unknown tables"
		}
		if o.st.k.reord {
			return "skip", ""
		}
		for i := 0; i < 2; i++ {
			x, _ := k.d.levelVar(o.st, kLin{0, 0, i})
			for s := 0; s < 2; s++ {
				w := x
				if s == 1 {
					w = x.not()
				}
				id, ok := nodeID(vars[2*i+s])
				if !ok || o.st.k.nodes[id].t != w {
					return "the nodes of the literals are not what they stand for", ""
				}
			}
			if l2v[i] != dval(dInt(i)) || v2l[i] != dval(dInt(i)) {
				return "the initial order of the variables is inconsistent", ""
			}
		}
		for _, e := range o.st.k.evs {
			if e.what == "set level" && (e.id == nodeZero || e.id == nodeOne) && e.args[0] != dval(dInt(2)) {
				return "the constants are not at the last level", ""
			}
		}
		return "", ""
	})
	return append(cs, kModelCases(k)...)
}

func checkC14(c *Ctx) {
	p := c.P
	c.Rule("operator", "every operator of a BDD gives the function it stands for: for all operands, by induction over the nodes", 18)
	c.Rule("variable-set", "the table of a set of literals holds exactly these literals with their signs", 6)
	c.Rule("literals", "the BDD of a list of literals is their conjunction, and the nodes of the variables denote the variables", 4)
	c.Rule("formula", "the formula, CNF and DNF of a BDD denote its function", 8)
	c.Rule("models", "the models given for a BDD are models of it, and none is missing in an enumeration", 14)
	c.Rule("count", "models and paths are counted as they are", 6)
	df := newDenFacts(p)
	df.polaritySets(p)
	ops := bddOperands(p)
	base := &kRun{p: p, ops: ops}
	type res struct {
		c      *kCase
		judged int
		bad    string
		open   string
	}
	var out []*res
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, x := range base.cases() {
		r := &res{c: x}
		out = append(out, r)
		pk, name := "bdd", x.fn
		fn := p.Func(pk, name)
		if fn == nil {
			r.open = "function not found"
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			k, st := newKRun(p, df, fn, ops)
			if x.cut > 0 {
				k.d.cut = x.cut
			}
			args := x.args(k, st)
			for _, o := range k.d.run(fn, args, nil, st) {
				if o.st.pc.isFalse() {
					continue
				}
				if o.panic {
					if !o.st.guess && r.bad == "" && x.rule == "operator" {
						r.bad = "it may panic"
					}
					continue
				}
				bad, open := x.check(k, o)
				if bad == "skip" {
					continue
				}
				if open != "" {
					if r.open == "" {
						r.open = open
					}
					continue
				}
				r.judged++
				if bad != "" && r.bad == "" {
					r.bad = bad
				}
			}
			if k.d.lost != "" && r.open == "" {
				r.open = k.d.lost
			}
		}()
	}
	wg.Wait()
	var open, cover []string
	type agg struct {
		n    int
		bad  string
		open string
		rule string
		pos  string
	}
	as := map[string]*agg{}
	var keys []string
	for _, r := range out {
		key := r.c.fn
		if r.c.name != "" {
			key += "|" + r.c.name
		}
		a := as[key]
		if a == nil {
			a = &agg{rule: r.c.rule}
			as[key] = a
			keys = append(keys, key)
		}
		if f := p.Func("bdd", r.c.fn); f != nil {
			a.pos = p.pos(f.Pos())
		}
		a.n += r.judged
		if a.bad == "" {
			a.bad = r.bad
		}
		if a.open == "" {
			a.open = r.open
		}
		if r.judged == 0 && a.open == "" {
			a.open = "no result was judged"
		}
	}
	for _, key := range keys {
		a := as[key]
		switch {
		case a.bad != "":
			c.Bad(a.rule, key, a.pos, a.bad)
		default:
			c.Ok(a.rule, key, a.pos)
		}
		if a.open != "" {
			open = append(open, key+": "+a.open)
		}
		cover = append(cover, fmt.Sprintf("%s: %d results judged", key, a.n))
	}
	c.Extra["open"] = open
	c.Extra["results"] = cover
	_ = strings.Join
}
