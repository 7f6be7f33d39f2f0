package main

import (
	"fmt"
	"go/types"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = checkC11 }

type dcase struct {
	name string
	sort string
	pos  int // literals: 1 positive, -1 negative
	n    int // number of operands
}

var dcases = []dcase{
	{"false", "SortFalse", 0, 0}, {"true", "SortTrue", 0, 0},
	{"positive literal", "SortLiteral", 1, 0}, {"negative literal", "SortLiteral", -1, 0},
	{"negation", "SortNot", 0, 1}, {"implication", "SortImpl", 0, 2}, {"equivalence", "SortEquiv", 0, 2},
	{"conjunction of 2", "SortAnd", 0, 2}, {"conjunction of 3", "SortAnd", 0, 3},
	{"disjunction of 2", "SortOr", 0, 2}, {"disjunction of 3", "SortOr", 0, 3},
	{"cardinality constraint", "SortCC", 0, 0}, {"pseudo-Boolean constraint", "SortPBC", 0, 0},
}

// top builds the formula under analysis.
func (d *den) top(st *dst, k dcase) (dDen, []string) {
	var v dDen
	var names []string
	switch k.sort {
	case "SortFalse":
		v = d.konst(false, st)
	case "SortTrue":
		v = d.konst(true, st)
	case "SortLiteral":
		t, _ := d.atom(st)
		names = []string{"v"}
		if k.pos < 0 {
			t = t.not()
		}
		v = dDen{t, d.id()}
		st.pos[v.id] = k.pos > 0
	case "SortCC", "SortPBC":
		t, _ := d.atom(st)
		names = []string{"constraint"}
		v = dDen{t, d.id()}
	default:
		var ops []dval
		var ts []tt
		for i := 0; i < k.n; i++ {
			t, _ := d.atom(st)
			o := dDen{t, d.id()}
			m := allSorts &^ (1<<d.sort["SortTrue"] | 1<<d.sort["SortFalse"])
			if k.sort == "SortAnd" || k.sort == "SortOr" {
				m &^= 1 << d.sort[k.sort]
			}
			if k.sort == "SortNot" {
				m &^= 1<<d.sort["SortNot"] | 1<<d.sort["SortLiteral"]
			}
			st.sorts[o.id] = m
			ops = append(ops, o)
			ts = append(ts, t)
			names = append(names, fmt.Sprintf("operand%d", i+1))
		}
		t, _ := d.connective(1<<d.sort[k.sort], ts)
		v = dDen{t, d.id()}
		st.ops[v.id] = ops
	}
	st.sorts[v.id] = 1 << d.sort[k.sort]
	return v, names
}

type recFn struct {
	f     *ssa.Function
	pars  []int
	bools []int
	kind  string // formula, bool, node
}

// recursions finds the functions that work on the structure of a formula.
func recursions(p *Program) []recFn {
	var out []recFn
	for _, f := range p.Funcs {
		if f.Parent() != nil || len(f.Blocks) == 0 || f.Signature.TypeParams() != nil {
			continue
		}
		pk := shortPkg(pkgOf(f))
		if pk == "formula" || pk == "test" || pk == "randomizer" {
			continue
		}
		r := recFn{f: f}
		for i, q := range f.Params {
			if isNamed(q.Type(), "formula", "Formula") {
				r.pars = append(r.pars, i)
			}
			if q.Type() == types.Typ[types.Bool] {
				r.bools = append(r.bools, i)
			}
		}
		// settings kept in the receiver count, too
		if st := recvStruct(f); st != nil && len(r.bools) > 0 {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Type() == types.Typ[types.Bool] {
					r.bools = append(r.bools, -1-i)
				}
			}
		}
		if n := len(r.pars); n < 1 || n > 2 || f.Signature.Results().Len() == 0 {
			continue
		}
		t := f.Signature.Results().At(0).Type()
		switch {
		case isNamed(t, "formula", "Formula"):
			r.kind = "formula"
		case t == types.Typ[types.Int32] && pk == "bdd":
			r.kind = "node"
		case t == types.Typ[types.Bool] && pk == "assignment" && f.Name() == "Evaluate":
			r.kind = "bool"
		default:
			continue
		}
		if !asksSort(p, f, r.pars[0]) || !p.Reach(p.callees(f)...)[f] {
			continue
		}
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return rel(out[i].f) < rel(out[j].f) })
	return out
}

func recvStruct(f *ssa.Function) *types.Struct {
	if f.Signature.Recv() == nil {
		return nil
	}
	st, _ := deref(f.Signature.Recv().Type()).Underlying().(*types.Struct)
	return st
}

func (r recFn) boolName(i int) string {
	if j := r.bools[i]; j < 0 {
		return recvStruct(r.f).Field(-1 - j).Name()
	}
	return r.f.Params[r.bools[i]].Name()
}

// boolArg gives the truth value with the given index for a call.
func (r recFn) boolArg(d *den, st *dst, args []dval, i int) dval {
	if j := r.bools[i]; j < 0 {
		switch x := args[0].(type) {
		case dPtr:
			return d.load(st, dPtr{x.cell, -1 - j})
		case dStruct:
			return x.f[-1-j]
		}
		return d.unk()
	}
	return args[r.bools[i]]
}

func (p *Program) callees(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				r = append(r, p.Targets(c.Common())...)
			}
		}
	}
	return r
}

func asksSort(p *Program, f *ssa.Function, par int) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := staticCallee(c.Common()); g != nil && isFunc(g, "formula", "Formula.Sort") && len(c.Common().Args) > 0 && c.Common().Args[0] == f.Params[par] {
					return true
				}
			}
		}
	}
	return false
}

// hypo is the hypothesis what a recursive function gives for the values of its
// Boolean parameters; ok is false where nothing is assumed (and judged).
type hypo struct {
	name    string
	penalty int
	f       func(d *den, ts []tt, bools []bool) (t tt, ok bool)
	bound   func(bools []bool) int // 1: the result only implies f, -1: the result is implied by f
	total   bool                   // every variable has a value; the result is a constant
}

func hypotheses(r recFn) []hypo {
	if len(r.pars) == 2 {
		var hs []hypo
		for _, s := range []string{"SortOr", "SortAnd", "SortImpl", "SortEquiv"} {
			s := s
			hs = append(hs, hypo{"the " + s[4:] + " of both", 0, func(d *den, ts []tt, b []bool) (tt, bool) {
				return d.connective(1<<d.sort[s], ts)
			}, nil, false})
		}
		return hs
	}
	same := func(d *den, ts []tt, b []bool) (tt, bool) { return ts[0], true }
	flip := func(d *den, ts []tt, b []bool) (tt, bool) { return ts[0].not(), true }
	hs := []hypo{{"the formula itself", 0, same, nil, false}}
	if exported(r.f) {
		return hs
	}
	n := len(r.bools)
	for i := 0; i < n; i++ {
		i := i
		name := r.boolName(i)
		hs = append(hs, hypo{"the formula itself or, if " + name + " is false, its negation", 0, func(d *den, ts []tt, b []bool) (tt, bool) {
			if b[i] {
				return same(d, ts, b)
			}
			return flip(d, ts, b)
		}, nil, false}, hypo{"the formula itself or, if " + name + " is true, its negation", 0, func(d *den, ts []tt, b []bool) (tt, bool) {
			if b[i] {
				return flip(d, ts, b)
			}
			return same(d, ts, b)
		}, nil, false})
		for j := 0; j < n; j++ {
			if i == j || r.bools[i] < 0 || r.bools[j] >= 0 {
				continue
			}
			for m := 0; m < 4; m++ {
				j, v, w := j, m&1 == 1, m&2 == 2
				hs = append(hs, hypo{name: fmt.Sprintf("the formula itself (if %s is %v, a formula that implies it if %s is %v and that it implies otherwise)", name, v, r.boolName(j), w), penalty: 1, f: same, bound: func(b []bool) int {
					switch {
					case b[i] != v:
						return 0
					case b[j] == w:
						return 1
					}
					return -1
				}})
			}
		}
		for _, v := range []bool{true, false} {
			v := v
			hs = append(hs, hypo{fmt.Sprintf("the formula itself (nothing if %s is %v)", name, v), 4, func(d *den, ts []tt, b []bool) (tt, bool) {
				if b[i] == v {
					return tt{}, false
				}
				return same(d, ts, b)
			}, nil, false})
		}
	}
	return append(hs, hypo{"its negation", 0, flip, nil, false})
}

type denRes struct {
	sort   string
	name   string
	bad    string
	judged int
	open   string
	panics int
	rets   int
}

type recContract struct {
	r    recFn
	h    hypo
	res  []denRes
	none bool
}

func checkC11(c *Ctx) {
	p := c.P
	c.Rule("connective", "a function that rebuilds or interprets formulas gives for every sort of formula the meaning of that sort over what it gives for the operands", 60)
	recs := recursions(p)
	df := newDenFacts(p)
	df.polaritySets(p)
	cons := map[*ssa.Function]*recContract{}
	// functions of two formulas first: the others use them
	for _, n := range []int{2, 1} {
		var jobs []*recContract
		for _, r := range recs {
			if len(r.pars) == n {
				for _, h := range hypotheses(r) {
					jobs = append(jobs, &recContract{r: r, h: h})
				}
			}
		}
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		for _, j := range jobs {
			wg.Add(1)
			go func(j *recContract) {
				defer wg.Done()
				sem <- true
				j.res = analyseRec(p, df, j.r, j.h, cons)
				<-sem
			}(j)
		}
		wg.Wait()
		best := map[*ssa.Function]*recContract{}
		for _, j := range jobs {
			if b := best[canonOf(j.r.f)]; b == nil || j.score() < b.score() {
				best[canonOf(j.r.f)] = j
			}
		}
		for f, b := range best {
			judged := map[string]bool{}
			for _, x := range b.res {
				if x.judged > 0 {
					judged[x.sort] = true
				}
			}
			b.none = !exported(b.r.f) && b.score()*2 > len(judged)
			cons[f] = b
		}
	}
	open := []string{}
	for _, r := range recs {
		b := cons[canonOf(r.f)]
		if b.none {
			open = append(open, rel(r.f)+": gives no formula with a meaning fixed by its argument")
			continue
		}
		for _, x := range b.res {
			key := rel(r.f) + "|" + x.name
			switch {
			case x.bad != "":
				c.Bad("connective", key, p.pos(r.f.Pos()), x.bad+"; the function gives "+b.h.name+" for the operands")
			case x.judged > 0:
				c.Ok("connective", key, p.pos(r.f.Pos()))
			default:
				open = append(open, key+": "+x.open)
			}
		}
	}
	// a function that may give less than the formula for some parameters gives
	// its exact value once all variables have a value
	for _, r := range recs {
		b := cons[canonOf(r.f)]
		if b.none || b.h.bound == nil {
			continue
		}
		same := func(d *den, ts []tt, b []bool) (tt, bool) { return ts[0], true }
		for _, x := range analyseRec(p, df, r, hypo{name: "the value of the formula", f: same, total: true}, cons) {
			key := rel(r.f) + "|" + x.name + ", all variables assigned"
			switch {
			case x.bad != "":
				c.Bad("connective", key, p.pos(r.f.Pos()), x.bad)
			case x.judged > 0:
				c.Ok("connective", key, p.pos(r.f.Pos()))
			default:
				open = append(open, key+": "+x.open)
			}
		}
	}
	c.Extra["open"] = open
	c.encoderRule(df)
	c.definitionRule(df)
	c.factoryRule(df)
}

func (k *recContract) score() int {
	bad := map[string]bool{}
	for _, x := range k.res {
		if x.bad != "" {
			bad[x.sort] = true
		}
	}
	return len(bad) + k.h.penalty
}

func analyseRec(p *Program, df *denFacts, r recFn, h hypo, cons map[*ssa.Function]*recContract) []denRes {
	var out []denRes
	if len(r.pars) == 2 {
		for _, k1 := range dcases {
			for _, k2 := range dcases {
				use := func(k dcase) bool { return k.n == 2 || k.n == 1 || k.pos > 0 }
				if use(k1) && use(k2) {
					out = append(out, analyseCase(p, df, r, h, cons, []dcase{k1, k2}, nil, k1.name+" and "+k2.name))
				}
			}
		}
		return out
	}
	for _, k := range dcases {
		for m := 0; m < 1<<len(r.bools); m++ {
			var bs []bool
			name := k.name
			for i := range r.bools {
				b := m>>i&1 == 1
				bs = append(bs, b)
				name += fmt.Sprintf(", %s=%v", r.boolName(i), b)
			}
			out = append(out, analyseCase(p, df, r, h, cons, []dcase{k}, bs, name))
		}
	}
	return out
}

// apply gives the results of a call of a function with a contract.
func (k *recContract) apply(d *den, g *ssa.Function, args []dval, st *dst) ([]dcall, bool) {
	var ts []tt
	for _, i := range k.r.pars {
		t, ok := d.den(st, args[i])
		if !ok {
			return []dcall{{st, d.unkRes(resType(g))}}, true
		}
		ts = append(ts, t)
	}
	gb := make([]bool, len(k.r.bools))
	for i := range k.r.bools {
		t, ok := d.truth(st, k.r.boolArg(d, st, args, i))
		if !ok || t != ttTrue && t != ttFalse {
			return []dcall{{st, d.unkRes(resType(g))}}, true
		}
		gb[i] = t == ttTrue
	}
	t, ok := k.h.f(d, ts, gb)
	if !ok || k.none {
		return []dcall{{st, d.unkRes(resType(g))}}, true
	}
	if k.h.bound != nil {
		if b := k.h.bound(gb); b != 0 {
			a, ok := d.atom(st)
			if !ok {
				return []dcall{{st, d.unkRes(resType(g))}}, true
			}
			if b > 0 {
				st.pc = st.pc.and(a.not().or(t))
			} else {
				st.pc = st.pc.and(t.not().or(a))
			}
			t = a
		}
	}
	v := d.of(t)
	if k.h.total {
		st.sorts[v.(dDen).id] = 1<<d.sort["SortTrue"] | 1<<d.sort["SortFalse"]
	}
	return []dcall{{st, d.result(g, v)}}, true
}

func resType(g *ssa.Function) types.Type {
	if g.Signature.Results().Len() == 1 {
		return g.Signature.Results().At(0).Type()
	}
	return g.Signature.Results()
}

func analyseCase(p *Program, df *denFacts, r recFn, h hypo, cons map[*ssa.Function]*recContract, ks []dcase, bs []bool, name string) denRes {
	d := newDen(p, df)
	d.root = r.f
	d.pkgs[pkgOf(r.f)] = true
	d.pkgs[pkgOf(p.Func("formula", "CachingFactory.Not"))] = true
	d.closed = r.kind == "bool"
	d.total = h.total
	self := &recContract{r: r, h: h}
	d.hyp = func(d *den, g *ssa.Function, args []dval, st *dst) ([]dcall, bool) {
		if canonOf(g) == canonOf(r.f) {
			return self.apply(d, g, args, st)
		}
		if k := cons[canonOf(g)]; k != nil {
			return k.apply(d, g, args, st)
		}
		if v, neg, ok := keeps(g, args); ok {
			t := v.t
			if neg {
				t = t.not()
			}
			if sl, ok := g.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok && isNamed(sl.Elem(), "formula", "Formula") {
				return []dcall{{st, d.result(g, d.list(st, []dval{d.of(t)}))}}, true
			}
			return []dcall{{st, d.result(g, d.of(t))}}, true
		}
		return nil, false
	}
	d.prims = bddPrims
	st := newDst()
	args := make([]dval, len(r.f.Params))
	for i := range args {
		args[i] = d.unk()
	}
	var names []string
	var ts []tt
	for i, k := range ks {
		x, ns := d.top(st, k)
		for _, n := range ns {
			if len(ks) > 1 {
				n = fmt.Sprintf("%s of formula %d", n, i+1)
			}
			names = append(names, n)
		}
		ts = append(ts, x.t)
		args[r.pars[i]] = x
	}
	if s := recvStruct(r.f); s != nil && len(r.bools) > 0 && r.bools[len(r.bools)-1] < 0 {
		x := dStruct{}
		for i := 0; i < s.NumFields(); i++ {
			x.f = append(x.f, d.unk())
		}
		for i, j := range r.bools {
			if j < 0 {
				x.f[-1-j] = d.b2i(bs[i])
			}
		}
		args[0] = x
		if _, ok := r.f.Params[0].Type().Underlying().(*types.Pointer); ok {
			c := d.id()
			st.heap[c] = x
			args[0] = dPtr{c, -1}
		}
	}
	for i, j := range r.bools {
		if i < len(bs) && j >= 0 {
			args[j] = d.b2i(bs[i])
		}
	}
	want, judge := h.f(d, ts, bs)
	res := denRes{name: name, sort: ks[0].sort}
	for i, b := range bs {
		res.sort += fmt.Sprint(i, b)
	}
	if !judge {
		res.open = "nothing is claimed for these parameters"
		return res
	}
	for _, o := range d.run(r.f, args, nil, st) {
		if o.panic {
			res.panics++
			continue
		}
		res.rets++
		if d.failing(o) {
			continue
		}
		got, ok := d.answer(r.kind, o)
		if !ok {
			res.open = "unknown result"
			continue
		}
		if h.total {
			m := allSorts
			if x, ok := o.rets[0].(dDen); ok {
				m = o.st.mask(x.id)
			}
			if m&^(1<<d.sort["SortTrue"]|1<<d.sort["SortFalse"]) != 0 {
				if ks[0].sort != "SortCC" && ks[0].sort != "SortPBC" && res.bad == "" {
					res.bad = fmt.Sprintf("the result for %s under an assignment of all variables is not a constant (%s)", name, p.pos(o.ret.Pos()))
				}
				res.open = "unknown result"
				continue
			}
		}
		res.judged++
		diff := o.st.pc.and(got.iff(want).not())
		if h.bound != nil {
			switch h.bound(bs) {
			case 1:
				diff = o.st.pc.and(got).and(want.not())
			case -1:
				diff = o.st.pc.and(got.not()).and(want)
			}
		}
		if !diff.isFalse() && res.bad == "" {
			res.bad = fmt.Sprintf("the result for %s has another meaning, for example for %s (%s)", name, showTT(diff, names), p.pos(o.ret.Pos()))
		}
	}
	if d.lost != "" && res.open == "" {
		res.open = d.lost
	}
	return res
}

// result completes the results of a call after the first one.
func (d *den) result(g *ssa.Function, v dval) dval {
	n := g.Signature.Results().Len()
	if n == 1 {
		return v
	}
	s := dStruct{[]dval{v}}
	for i := 1; i < n; i++ {
		s.f = append(s.f, d.unk())
	}
	return s
}

// failing: the function reports an error or a cancelled computation.
func (d *den) failing(o dout) bool {
	if len(o.rets) < 2 {
		return false
	}
	res := o.ret.Results
	for i := 1; i < len(o.rets); i++ {
		t := res[i].Type()
		switch {
		case isNamed(t, "handler", "State"):
			if s, ok := o.rets[i].(dStruct); ok {
				if f := stateSuccessField(t); f >= 0 && f < len(s.f) {
					if b, ok := d.truth(o.st, s.f[f]); ok {
						return b == ttFalse
					}
				}
				return false
			}
			if o.rets[i] == (dUnk{id: -1}) {
				return false
			}
			if u, ok := o.rets[i].(dUnk); ok {
				if c, ok := o.st.lazy[fmt.Sprint("u", u.id, ".", stateSuccessField(t))]; ok {
					if w, ok := o.st.heap[c].(dUnk); ok {
						if b, ok := o.st.bools[fmt.Sprint(w.id)]; ok {
							return !b
						}
					}
				}
			}
			// the state of a call; an explicit cancelation has no result
			if v, ok := o.rets[0].(dInt); ok && v == 0 {
				return true
			}
			return false
		case t.String() == "error":
			if _, ok := o.rets[i].(dNil); ok {
				return false
			}
			if u, ok := o.rets[i].(dUnk); ok {
				if b, ok := o.st.bools[fmt.Sprint(u.id, "nil")]; ok {
					return !b
				}
			}
			if v, ok := o.rets[0].(dInt); ok && v == 0 {
				return true
			}
		case t == types.Typ[types.Bool]:
			if v, ok := o.rets[i].(dInt); ok && v == 0 {
				return true
			}
		}
	}
	return false
}

func stateSuccessField(t types.Type) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Success" {
			return i
		}
	}
	return -1
}

func (d *den) answer(kind string, o dout) (tt, bool) {
	v := o.rets[0]
	switch kind {
	case "bool":
		return d.truth(o.st, v)
	case "node":
		if n, ok := v.(dInt); ok && (n == 0 || n == 1) {
			if n == 1 {
				return ttTrue, true
			}
			return ttFalse, true
		}
	}
	return d.den(o.st, v)
}

// keeps: calls of functions that give a formula with the meaning of their argument.
func keeps(g *ssa.Function, args []dval) (dDen, bool, bool) {
	if pkgOf(g) == nil || !inModule(g) || g.Signature.Results().Len() == 0 {
		return dDen{}, false, false
	}
	pk := shortPkg(pkgOf(g))
	i := -1
	for j := 0; j < g.Signature.Params().Len(); j++ {
		if isNamed(g.Signature.Params().At(j).Type(), "formula", "Formula") {
			if i >= 0 {
				return dDen{}, false, false
			}
			i = j
		}
	}
	if i < 0 || g.Signature.Recv() != nil {
		return dDen{}, false, false
	}
	v, ok := args[i].(dDen)
	if !ok {
		return dDen{}, false, false
	}
	if pk == "encoding" {
		switch g.Name() {
		case "EncodePBC", "EncodeCC":
			return v, false, true
		case "NegatePBC":
			return v, true, true
		}
	}
	if exported(g) && (pk == "normalform" || pk == "simplification" || pk == "transformation") && isNamed(g.Signature.Results().At(0).Type(), "formula", "Formula") {
		return v, false, true
	}
	return dDen{}, false, false
}

// bddPrims: the operations of the BDD kernel.
func bddPrims(d *den, g *ssa.Function, args []dval, st *dst) ([]dcall, bool) {
	recv := g.Signature.Recv()
	if recv == nil || !isNamed(deref(recv.Type()), "bdd", "Kernel") {
		return nil, false
	}
	one := func(v dval) ([]dcall, bool) { return []dcall{{st, d.result(g, v)}}, true }
	t := func(i int) (tt, bool) {
		if i >= len(args) {
			return tt{}, false
		}
		if n, ok := args[i].(dInt); ok && (n == 0 || n == 1) {
			if n == 1 {
				return ttTrue, true
			}
			return ttFalse, true
		}
		return d.den(st, args[i])
	}
	a, ok := t(1)
	if !ok {
		return nil, false
	}
	b, ok2 := t(2)
	switch g.Name() {
	case "ithVar", "addRef", "getOrAddVarIndex":
		return one(d.of(a))
	case "nithVar", "not":
		return one(d.of(a.not()))
	}
	if !ok2 {
		return nil, false
	}
	switch g.Name() {
	case "and":
		return one(d.of(a.and(b)))
	case "or":
		return one(d.of(a.or(b)))
	case "implication":
		return one(d.of(a.not().or(b)))
	case "equivalence":
		return one(d.of(a.iff(b)))
	}
	return nil, false
}
