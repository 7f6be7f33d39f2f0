package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C12"] = checkC12 }

// shCase is an abstract input: a sort, a number of operands and forms.
type shCase struct {
	k   dcase
	in  uint16
	lit bool // the operands are literals
}

func shapeCases(p *Program, sorts map[string]int64) []shCase {
	var out []shCase
	for _, k := range dcases {
		switch k.sort {
		case "SortFalse", "SortTrue", "SortLiteral":
			out = append(out, shCase{k: k, in: shAll})
		case "SortNot":
			out = append(out, shCase{k: k, in: 0}, shCase{k: k, in: shAIG}, shCase{k: k, in: shNotC}, shCase{k: k, in: shNotD})
		case "SortAnd":
			out = append(out, shCase{k: k, in: 0}, shCase{k: k, in: shNNF}, shCase{k: k, in: shNNF | shCNF}, shCase{k: k, in: shNNF | shCNF | shDNF | shAIG | shTerm}, shCase{k: k, in: shAIG})
		case "SortOr":
			out = append(out, shCase{k: k, in: 0}, shCase{k: k, in: shNNF}, shCase{k: k, in: shNNF | shDNF}, shCase{k: k, in: shNNF | shCNF | shDNF | shClause})
		default:
			out = append(out, shCase{k: k, in: 0})
		}
	}
	return out
}

func showShape(b uint16) string {
	var s []string
	for _, x := range []uint16{shNNF, shCNF, shDNF, shAIG, shClause, shTerm, shNotC, shNotD} {
		if b&x != 0 {
			s = append(s, shNames[x])
		}
	}
	if len(s) == 0 {
		return "any form"
	}
	return strings.Join(s, "+")
}

type shKey struct {
	f    *ssa.Function
	sort string
	in   uint16
	bs   string
}

// shPair is the assumption about a function of two formulas: if both have the
// form, the result has it.
type shPair struct {
	f *ssa.Function
	b uint16
}

type shaper struct {
	p      *Program
	df     *denFacts
	recs   map[*ssa.Function]recFn
	claim  map[shKey]uint16
	void   map[*ssa.Function]bool // functions that only fill tables
	pairs  map[shPair]bool
	cache  map[shKey]uint16 // what a hit in a cache has, by the name of the cache
	maps   uint16           // form of the formulas in the tables of a transformation state
	cases  []shCase
	mu     sync.Mutex
	lower  bool // something stored has fewer forms than assumed
	stored map[string]uint16
}

// dpred is an answer stored in the cache of a predicate.
type dpred struct {
	entry   int64
	on, val dval
}

type shOut struct {
	got    uint16 // on every path
	may    uint16 // missing, but perhaps only because the analysis lost something
	judged int
	pos    map[uint16]string
	open   string
}

func bsKey(bs []bool) string {
	s := ""
	for _, b := range bs {
		if b {
			s += "1"
		} else {
			s += "0"
		}
	}
	return s
}

// given is what the claims say about a call.
func (s *shaper) given(d *den, st *dst, r recFn, arg dval, bs []bool) (uint16, bool) {
	x, ok := arg.(dDen)
	if !ok {
		return 0, false
	}
	in, known := d.shapeOf(st, x)
	m := st.mask(x.id)
	out := shAll
	for name, n := range d.sort {
		if m&(1<<n) == 0 {
			continue
		}
		var o uint16
		any := false
		for _, c := range s.cases {
			if c.k.sort != name || c.in&^d.closeShape(in, 1<<n) != 0 {
				continue
			}
			k := shKey{canonOf(r.f), name, c.in, bsKey(bs)}
			if v, ok := s.claim[k]; ok {
				o |= v & shAll
				known = known && v&shOpq == 0
				any = true
			}
		}
		if any {
			out &= o
		}
	}
	return out, known
}

// hit is what the claims say about a formula found in a cache.
func (s *shaper) hit(d *den, st *dst, entry int64, arg dval) (uint16, bool) {
	x, ok := arg.(dDen)
	if !ok {
		return 0, false
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	in, known := d.shapeOf(st, x)
	m := st.mask(x.id)
	out := shAll
	for name, n := range d.sort {
		if m&(1<<n) == 0 {
			continue
		}
		var o uint16
		for _, c := range s.cases {
			if c.k.sort != name || c.in&^d.closeShape(in, 1<<n) != 0 {
				continue
			}
			k := shKey{nil, name, c.in, fmt.Sprint(entry)}
			v, ok := s.cache[k]
			if !ok {
				v = shAll
				s.cache[k] = v
			}
			o |= v & shAll
			known = known && v&shOpq == 0
		}
		out &= o
	}
	return out, known
}

// store lowers what is assumed of a cache.
func (s *shaper) store(d *den, st *dst, entry int64, arg, val dval, c shCase) {
	x, ok := arg.(dDen)
	m := uint16(allSorts)
	if ok {
		m = st.mask(x.id)
	}
	b, known := d.shapeOf(st, val)
	if !known {
		b |= shOpq
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for name, n := range d.sort {
		if m&(1<<n) == 0 {
			continue
		}
		for _, cs := range s.cases {
			if cs.k.sort != name || ok && x.id == d.topID && cs.in != c.in {
				continue
			}
			k := shKey{nil, name, cs.in, fmt.Sprint(entry)}
			v, ok := s.cache[k]
			if !ok {
				v = shAll
			}
			if n := meet(v, b); n != v {
				s.cache[k] = n
				s.lower = true
			} else if !ok {
				s.cache[k] = v
			}
		}
	}
}

// meet: the forms both have, and whether those lost are lost for sure.
func meet(v, b uint16) uint16 {
	n := v & b & shAll
	n |= v & shOpq
	if v&^b&shAll != 0 {
		n |= b & shOpq
	}
	return n
}

// predForm gives the form a predicate asks for.
func predForm(g *ssa.Function) uint16 {
	if pkgOf(g) == nil || shortPkg(pkgOf(g)) != "normalform" || g.Signature.Results().Len() != 1 || g.Signature.Results().At(0).Type() != types.Typ[types.Bool] {
		return 0
	}
	switch g.Name() {
	case "IsNNF":
		return shNNF
	case "IsCNF":
		return shCNF
	case "IsDNF":
		return shDNF
	case "IsAIG":
		return shAIG
	case "IsMinterm":
		return shTerm
	case "IsMaxterm":
		return shClause
	}
	return 0
}

func (s *shaper) newDen(f *ssa.Function, c shCase) *den {
	p := s.p
	d := newDen(p, s.df)
	d.root = f
	d.shaped = true
	d.maxSteps *= 4
	d.budget *= 8
	d.pkgs[pkgOf(f)] = true
	for _, q := range p.Pkgs {
		if n := shortPkg(q.Types); n == "normalform" || n == "assignment" {
			d.pkgs[q.Types] = true
		}
	}
	d.onLookup = func(st *dst, x *ssa.Lookup, k dval) ([]dcall, bool) {
		v, ok := s.tableValue(d, st, x.X)
		if !ok {
			return nil, false
		}
		if x.CommaOk {
			return []dcall{{st.clone(), dStruct{[]dval{v, dInt(1)}}}, {st, dStruct{[]dval{dInt(0), dInt(0)}}}}, true
		}
		return []dcall{{st, v}}, true
	}
	d.onUpdate = func(st *dst, k, v dval, x *ssa.MapUpdate) {
		if !s.isTable(x.Map) {
			return
		}
		b, known := d.shapeOf(st, v)
		if !known {
			b |= shOpq
		}
		s.mu.Lock()
		s.stored[p.pos(x.Pos())] |= ^b & shAll & (shNNF | shCNF)
		if !known {
			s.stored[p.pos(x.Pos())] |= shOpq
		}
		if n := meet(s.maps, b) | shCNF | shNNF; n != s.maps {
			s.maps = n
			s.lower = true
		}
		s.mu.Unlock()
	}
	give := func(st *dst, g *ssa.Function, b uint16, known bool) ([]dcall, bool) {
		v, ok := d.fresh(st).(dDen)
		if !ok {
			return []dcall{{st, d.unkRes(resType(g))}}, true
		}
		if !known {
			b |= shOpq
		}
		if b&shAll == shAll {
			st.sorts[v.id] = d.bit("SortLiteral", "SortTrue", "SortFalse")
		}
		d.setShape(st, v, b)
		return []dcall{{st, d.result(g, v)}}, true
	}
	d.hyp = func(d *den, g *ssa.Function, args []dval, st *dst) ([]dcall, bool) {
		if s.void[canonOf(g)] {
			return []dcall{{st, d.unk()}}, true
		}
		if r, ok := s.recs[canonOf(g)]; ok {
			bs := make([]bool, len(r.bools))
			for i := range r.bools {
				t, ok := d.truth(st, r.boolArg(d, st, args, i))
				if !ok || t != ttTrue && t != ttFalse {
					return []dcall{{st, d.unkRes(resType(g))}}, true
				}
				bs[i] = t == ttTrue
			}
			if len(r.pars) == 2 {
				a, k1 := d.shapeOf(st, args[r.pars[0]])
				b, k2 := d.shapeOf(st, args[r.pars[1]])
				var o uint16
				for x := uint16(1); x < shOpq; x <<= 1 {
					if a&b&x != 0 && s.pairs[shPair{canonOf(g), x}] {
						o |= x
					}
				}
				return give(st, g, o, k1 && k2)
			}
			o, known := s.given(d, st, r, args[r.pars[0]], bs)
			return give(st, g, o, known)
		}
		pk := ""
		if pkgOf(g) != nil {
			pk = shortPkg(pkgOf(g))
		}
		if b := predForm(g); b != 0 {
			for _, a := range args {
				x, ok := a.(dDen)
				if !ok {
					continue
				}
				have, known := d.shapeOf(st, x)
				if st.lacks[x.id]&b != 0 {
					return []dcall{{st, dInt(0)}}, true
				}
				yes := st.clone()
				d.setShape(yes, x, d.closeShape(have|b, yes.mask(x.id))|(st.shape[x.id]&shOpq))
				if have&b != 0 && known {
					return []dcall{{yes, dInt(1)}}, true
				}
				if st.lacks == nil {
					st.lacks = map[int]uint16{}
				}
				st.lacks[x.id] |= b
				return []dcall{{yes, dInt(1)}, {st, dInt(0)}}, true
			}
		}
		if pk == "formula" && g.Name() == "SubNodes" {
			var l []dval
			for i := 0; i < 2; i++ {
				v, ok := d.fresh(st).(dDen)
				if !ok {
					return []dcall{{st, d.unkRes(resType(g))}}, true
				}
				d.setShape(st, v, shOpq)
				l = append(l, v)
			}
			return []dcall{{st, d.list(st, l)}}, true
		}
		if pk == "bdd" || pk == "assignment" {
			if t := g.Signature.Results(); t.Len() > 0 && !isFormulaT(t.At(0).Type()) && t.At(0).Type() != types.Typ[types.Bool] {
				return []dcall{{st, d.unkRes(resType(g))}}, true
			}
		}
		switch {
		case pk == "formula" && g.Name() == "LookupPredicateCache" && predForm(f) != 0:
			// what is in the cache is judged where it is stored
			return []dcall{{st, dStruct{[]dval{dInt(0), dInt(0)}}}}, true
		case pk == "formula" && g.Name() == "SetPredicateCache" && predForm(f) != 0:
			for i, a := range args {
				if k, ok := a.(dInt); ok && i+2 < len(args) {
					st.preds = append(st.preds, dpred{int64(k), args[i+1], args[i+2]})
				}
			}
			return []dcall{{st, d.unk()}}, true
		case pk == "formula" && g.Name() == "LookupTransformationCache" && c.lit:
			return []dcall{{st, dStruct{[]dval{dInt(0), dInt(0)}}}}, true
		case pk == "formula" && g.Name() == "LookupTransformationCache":
			for i, a := range args {
				k, ok := a.(dInt)
				if !ok || i+1 >= len(args) {
					continue
				}
				hit := st.clone()
				v, ok := d.fresh(hit).(dDen)
				if !ok {
					return nil, false
				}
				b, known := s.hit(d, st, int64(k), args[i+1])
				if !known {
					b |= shOpq
				}
				d.setShape(hit, v, b)
				return []dcall{{hit, dStruct{[]dval{v, dInt(1)}}}, {st, dStruct{[]dval{dInt(0), dInt(0)}}}}, true
			}
		case pk == "formula" && g.Name() == "SetTransformationCache":
			for i, a := range args {
				if k, ok := a.(dInt); ok && i+2 < len(args) {
					s.store(d, st, int64(k), args[i+1], args[i+2], c)
				}
			}
			return []dcall{{st, d.unk()}}, true
		case pk == "encoding" && (g.Name() == "EncodePBC" || g.Name() == "EncodeCC"):
			// the clauses of an encoding
			var l []dval
			for i := 0; i < 2; i++ {
				v, ok := d.fresh(st).(dDen)
				if !ok {
					return []dcall{{st, d.unkRes(resType(g))}}, true
				}
				d.setShape(st, v, shNNF|shCNF|shDNF|shClause)
				l = append(l, v)
			}
			return []dcall{{st, dStruct{[]dval{d.list(st, l), dNil{}}}}}, true
		case pk == "encoding" && g.Name() == "NegatePBC":
			return give(st, g, 0, true)
		case pk == "simplification" && g.Name() == "PropagateUnits":
			return give(st, g, shCNF, true)
		case pk == "bdd" && recvNamed(g) != nil && (g.Name() == "CNF" || g.Name() == "DNF"):
			if g.Name() == "CNF" {
				return give(st, g, shCNF, true)
			}
			return give(st, g, shDNF, true)
		}
		return nil, false
	}
	return d
}

// isTable: a map from formulas to formulas that belongs to the state of a
// transformation.
func (s *shaper) isTable(m ssa.Value) bool {
	k, _ := valueFieldKey(m, 0)
	return strings.Contains(k, "CNFAuxState") && isFormulaT(mapElem(m))
}

func (s *shaper) tableValue(d *den, st *dst, m ssa.Value) (dval, bool) {
	k, _ := valueFieldKey(m, 0)
	if !strings.Contains(k, "CNFAuxState") {
		return nil, false
	}
	v, ok := d.fresh(st).(dDen)
	if !ok {
		return nil, false
	}
	if isNamed(mapElem(m), "formula", "Formula") {
		s.mu.Lock()
		d.setShape(st, v, s.maps)
		s.mu.Unlock()
	} else {
		st.sorts[v.id] = d.bit("SortLiteral")
		d.setShape(st, v, shAll)
	}
	return v, true
}

func (s *shaper) run(r recFn, bs []bool, cs []shCase) shOut {
	f := r.f
	// the number of the first symbol is that of the formula
	d := s.newDen(f, cs[0])
	st := newDst()
	args := make([]dval, len(f.Params))
	for i := range args {
		args[i] = d.unk()
	}
	for i, c := range cs {
		x, _ := d.top(st, c.k)
		d.setShape(st, x, c.in)
		d.shapeOperands(st, x)
		if ops, ok := d.operands(st, x); ok && c.lit {
			for _, o := range ops {
				d.literalShape(st, o)
			}
		}
		args[r.pars[i]] = x
		if i == 0 {
			d.topID = x.id
		}
	}
	r.setBools(bs)(args, d, st)
	out := shOut{got: shAll, pos: map[uint16]string{}}
	if f.Signature.Results().Len() == 0 {
		d.run(f, args, nil, st)
		return out
	}
	for _, o := range d.run(f, args, nil, st) {
		if o.panic || d.failing(o) {
			continue
		}
		b, known := d.shapeOf(o.st, o.rets[0])
		if _, ok := o.rets[0].(dDen); !ok {
			known = false
		}
		out.judged++
		for x := uint16(1); x < shOpq; x <<= 1 {
			if b&x == 0 {
				if known {
					if out.pos[x] == "" {
						out.pos[x] = s.p.pos(o.ret.Pos())
					}
				} else {
					out.may |= x
				}
			}
		}
		out.got &= b
	}
	if d.lost != "" {
		out.open = d.lost
		out.may = shAll
		out.got = 0
	}
	if out.judged == 0 && d.lost == "" {
		// always fails: nothing is given
		out.got = shAll
	}
	return out
}

func (r recFn) setBools(bs []bool) func(args []dval, d *den, st *dst) {
	return func(args []dval, d *den, st *dst) {
		for i, j := range r.bools {
			if j >= 0 && i < len(bs) {
				args[j] = d.b2i(bs[i])
			}
		}
	}
}

// shapers finds the functions that are analysed: those that promise a form,
// and everything they use that takes and gives formulas.
func (s *shaper) find() []recFn {
	p := s.p
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if promise(f) != 0 && f.Parent() == nil {
			roots = append(roots, f)
		}
	}
	reach := p.Reach(roots...)
	isRec := map[*ssa.Function]bool{}
	var out []recFn
	for _, f := range p.Funcs {
		pk := shortPkg(pkgOf(f))
		if f.Parent() != nil || len(f.Blocks) == 0 || f.Signature.TypeParams() != nil || !reach[f] || f.Synthetic != "" {
			continue
		}
		if pk != "normalform" && pk != "bdd" && pk != "assignment" {
			continue
		}
		r := recFn{f: f, kind: "formula"}
		for i, q := range f.Params {
			if isNamed(q.Type(), "formula", "Formula") {
				r.pars = append(r.pars, i)
			}
			if q.Type() == types.Typ[types.Bool] {
				r.bools = append(r.bools, i)
			}
		}
		if n := len(r.pars); n < 1 || n > 2 || len(r.bools) > 2 {
			continue
		}
		switch {
		case f.Signature.Results().Len() > 0 && isNamed(f.Signature.Results().At(0).Type(), "formula", "Formula"):
			if promise(f) == 0 && !p.Reach(p.callees(f)...)[f] && len(r.pars) > 1 {
				continue
			}
		case f.Signature.Results().Len() == 0 && s.fills(f) && p.Reach(p.callees(f)...)[f]:
			s.void[canonOf(f)] = true
		default:
			continue
		}
		isRec[f] = true
		out = append(out, r)
	}
	return out
}

// fills: the function writes tables of a transformation state.
func (s *shaper) fills(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok && s.isTable(u.Map) {
				return true
			}
		}
	}
	return false
}

func checkC12(c *Ctx) {
	p := c.P
	c.Rule("form", "what a normal form function gives has the promised form for every sort of formula, by induction over the formula", 60)
	df := newDenFacts(p)
	df.polaritySets(p)
	s := &shaper{p: p, df: df, recs: map[*ssa.Function]recFn{}, claim: map[shKey]uint16{}, pairs: map[shPair]bool{}, void: map[*ssa.Function]bool{},
		cache: map[shKey]uint16{}, stored: map[string]uint16{}, maps: shNNF | shCNF}
	s.cases = shapeCases(p, df.sort)
	fns := s.find()
	for _, r := range fns {
		if !s.void[canonOf(r.f)] {
			s.recs[canonOf(r.f)] = r
		}
	}
	type job struct {
		r    recFn
		bs   []bool
		cs   []shCase
		pair uint16
		out  shOut
		sec  float64
	}
	var jobs []*job
	for _, r := range fns {
		for m := 0; m < 1<<len(r.bools); m++ {
			var bs []bool
			for i := range r.bools {
				bs = append(bs, m>>i&1 == 1)
			}
			if len(r.pars) == 2 {
				for x := uint16(1); x < shOpq; x <<= 1 {
					s.pairs[shPair{canonOf(r.f), x}] = true
					for _, c1 := range s.cases {
						for _, c2 := range s.cases {
							if c1.in&x != 0 && c2.in&x != 0 && c1.k.n < 3 && c2.k.n < 3 {
								jobs = append(jobs, &job{r: r, bs: bs, cs: []shCase{c1, c2}, pair: x})
							}
						}
					}
				}
				continue
			}
			for _, x := range s.cases {
				s.claim[shKey{canonOf(r.f), x.k.sort, x.in, bsKey(bs)}] = shAll
				jobs = append(jobs, &job{r: r, bs: bs, cs: []shCase{x}})
			}
		}
	}
	type loss struct{ f, sort, what string }
	var first []loss
	rounds := 0
	for ; rounds < 20; rounds++ {
		s.lower, s.stored = false, map[string]uint16{}
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		for _, j := range jobs {
			wg.Add(1)
			go func(j *job) {
				defer wg.Done()
				sem <- true
				t := time.Now()
				j.out = s.run(j.r, j.bs, j.cs)
				j.sec = time.Since(t).Seconds()
				<-sem
			}(j)
		}
		wg.Wait()
		changed := s.lower
		for _, j := range jobs {
			if len(j.cs) == 2 {
				k := shPair{canonOf(j.r.f), j.pair}
				if s.pairs[k] && j.out.got&j.pair == 0 {
					s.pairs[k] = false
					changed = true
				}
				continue
			}
			if s.void[canonOf(j.r.f)] {
				continue
			}
			k := shKey{canonOf(j.r.f), j.cs[0].k.sort, j.cs[0].in, bsKey(j.bs)}
			b := j.out.got
			if j.out.may&^b != 0 {
				b |= shOpq
			}
			// what is promised is assumed of every call, and judged below
			b |= promise(j.r.f)
			if n := meet(s.claim[k], b); n != s.claim[k] {
				first = append(first, loss{rel(j.r.f), j.cs[0].k.name, showShape(s.claim[k] &^ n)})
				s.claim[k] = n
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	var open []string
	for _, j := range append([]*job{}, jobs...) {
		if want := promise(j.r.f); want != 0 && len(j.cs) == 1 && (j.cs[0].k.sort == "SortEquiv" || j.cs[0].k.sort == "SortImpl") {
			n := &job{r: j.r, bs: j.bs, cs: []shCase{{k: j.cs[0].k, lit: true}}}
			n.cs[0].k.name += " of literals"
			n.out = s.run(n.r, n.bs, n.cs)
			jobs = append(jobs, n)
		}
	}
	for _, j := range jobs {
		want := promise(j.r.f)
		if want == 0 || len(j.cs) != 1 || j.cs[0].in != 0 && j.cs[0].k.n > 0 {
			continue
		}
		key := rel(j.r.f) + "|" + j.cs[0].k.name
		b := j.out.got
		switch {
		case b&want != 0:
			c.Ok("form", key, p.pos(j.r.f.Pos()))
		case j.out.may&want == 0:
			c.Bad("form", key, p.pos(j.r.f.Pos()), fmt.Sprintf("the result for a %s is not always in %s (%s)", j.cs[0].k.name, showShape(want), j.out.pos[want]))
		default:
			open = append(open, fmt.Sprintf("%s: %d results, %s, lost %s", key, j.out.judged, showShape(j.out.got), j.out.open))
		}
	}
	for pos, b := range s.stored {
		key := "tables|" + pos[:strings.Index(pos, ":")]
		switch {
		case b == 0 || b == shOpq:
			c.Ok("form", key, pos)
		case b&shOpq == 0:
			c.Bad("form", key, pos, "a formula that is no CNF is stored in the state of a CNF transformation, which gives it out later")
		default:
			open = append(open, key+": unknown formula")
		}
	}
	c.predicates(s)
	c.cnfFlag(df)
	var cl, slow []string
	for k, v := range s.claim {
		o := ""
		if v&shOpq != 0 {
			o = " ?"
		}
		cl = append(cl, fmt.Sprintf("%s %s in=%s bools=%s: %s%s", rel(k.f), k.sort, showShape(k.in), k.bs, showShape(v), o))
	}
	for _, j := range jobs {
		if j.sec > 1 || j.out.open != "" {
			slow = append(slow, fmt.Sprintf("%s %s %s %.1f s %s", rel(j.r.f), j.cs[0].k.name, showShape(j.cs[0].in), j.sec, j.out.open))
		}
	}
	var pr []string
	for k, v := range s.pairs {
		pr = append(pr, fmt.Sprintf("%s %s %v", rel(k.f), showShape(k.b), v))
	}
	sort.Strings(pr)
	sort.Strings(cl)
	sort.Strings(open)
	c.Extra["pairs"] = pr
	c.Extra["claims"] = cl
	c.Extra["rounds"] = rounds
	c.Extra["slow"] = slow
	c.Extra["tables"] = showShape(s.maps)
	c.Extra["stored"] = s.stored
	c.Extra["open"] = open
}

// needs gives the form the operands of a formula need for it to have a form;
// ok is false if no formula of the sort has it.
func (d *den) needs(form, m uint16) (uint16, bool) {
	switch m {
	case d.bit("SortTrue"), d.bit("SortFalse"), d.bit("SortLiteral"):
		return 0, true
	case d.bit("SortNot"):
		return shAIG, form == shAIG
	case d.bit("SortAnd"):
		switch form {
		case shNNF, shAIG:
			return form, true
		case shCNF:
			return shClause, true
		case shDNF, shTerm:
			return shLit, true
		}
	case d.bit("SortOr"):
		switch form {
		case shNNF:
			return form, true
		case shDNF:
			return shTerm, true
		case shCNF, shClause:
			return shLit, true
		}
	}
	return 0, false
}

// shLit: is a literal.
const shLit = shOpq << 1

// formTruth decides whether a formula whose operands are known has a form.
func (d *den) formTruth(st *dst, x dDen, form uint16) (yes, no bool) {
	m := st.mask(x.id)
	if m&(m-1) != 0 {
		return false, false
	}
	need, ok := d.needs(form, m)
	lacks := st.lacks[x.id]
	if m == d.bit("SortAnd") && lacks&shTerm != 0 {
		lacks |= shDNF
	}
	if m == d.bit("SortOr") && lacks&shClause != 0 {
		lacks |= shCNF
	}
	if !ok || lacks&form != 0 {
		return false, true
	}
	if h, _ := d.shapeOf(st, x); h&form != 0 {
		return true, false
	}
	if need == 0 {
		return true, false
	}
	ops, ok := d.operands(st, x)
	if !ok {
		return false, false
	}
	all := true
	for _, o := range ops {
		y, ok := o.(dDen)
		if !ok {
			return false, false
		}
		om := st.mask(y.id)
		if need == shLit {
			if om&d.bit("SortLiteral") == 0 {
				return false, true
			}
			all = all && om == d.bit("SortLiteral")
			continue
		}
		if st.lacks[y.id]&need != 0 {
			return false, true
		}
		can := false
		for _, n := range d.sort {
			if om&(1<<n) != 0 {
				_, ok := d.needs(need, 1<<n)
				can = can || ok
			}
		}
		if !can {
			return false, true
		}
		h, _ := d.shapeOf(st, y)
		all = all && h&need != 0
	}
	return all, false
}

// predicates: IsNNF and its kin are exact.
func (c *Ctx) predicates(s *shaper) {
	p := c.P
	c.Rule("predicate", "a predicate on the form of a formula says yes exactly for the formulas of that form, by induction over the formula, and stores exactly its answer", 30)
	var open []string
	forms := map[int64]uint16{}
	for n, v := range enumValues(p, "formula", "PredicateCacheSort") {
		for b, f := range shNames {
			if strings.HasSuffix(n, f) {
				forms[v] = b
			}
		}
	}
	for _, f := range p.Funcs {
		want := predForm(f)
		if want == 0 || f.Parent() != nil {
			continue
		}
		par := -1
		for i, q := range f.Params {
			if isNamed(q.Type(), "formula", "Formula") {
				par = i
			}
		}
		if par < 0 {
			continue
		}
		for _, k := range dcases {
			d := s.newDen(f, shCase{k: k, in: 0})
			st := newDst()
			args := make([]dval, len(f.Params))
			for i := range args {
				args[i] = d.unk()
			}
			x, _ := d.top(st, k)
			args[par] = x
			key := rel(f) + "|" + k.name
			judged, bad := 0, ""
			var outs []dout
			for _, o := range d.run(f, args, nil, st) {
				if o.panic || d.failing(o) {
					continue
				}
				if t, ok := d.truth(o.st, o.rets[0]); ok && (t == ttTrue || t == ttFalse) {
					outs = append(outs, o)
					continue
				}
				for _, v := range []bool{true, false} {
					n := o
					n.st = o.st.clone()
					if d.assume(n.st, o.rets[0], v) {
						n.rets = append([]dval{d.b2i(v)}, o.rets[1:]...)
						for i, q := range n.st.preds {
							if t, ok := d.truth(n.st, q.val); ok && (t == ttTrue || t == ttFalse) {
								n.st.preds[i].val = d.b2i(t == ttTrue)
							}
						}
						outs = append(outs, n)
					}
				}
			}
			for _, o := range outs {
				got, ok := d.truth(o.st, o.rets[0])
				yes, no := d.formTruth(o.st, x, want)
				if !ok || got != ttTrue && got != ttFalse {
					open = append(open, key+": unknown answer")
					continue
				}
				judged++
				switch {
				case got == ttTrue && no:
					bad = fmt.Sprintf("says yes for a %s that is no %s (%s)", k.name, shNames[want], p.pos(o.ret.Pos()))
				case got == ttFalse && yes:
					bad = fmt.Sprintf("says no for a %s that is a %s (%s)", k.name, shNames[want], p.pos(o.ret.Pos()))
				case !yes && !no && o.st.guess:
					open = append(open, key+": "+p.pos(o.ret.Pos()))
				case !yes && !no:
					bad = fmt.Sprintf("says %v for a %s without having looked at all it depends on (%s)", got == ttTrue, k.name, p.pos(o.ret.Pos()))
				}
				for _, q := range o.st.preds {
					v, ok := d.truth(o.st, q.val)
					y, isDen := q.on.(dDen)
					if !ok || !isDen || v != ttTrue && v != ttFalse {
						open = append(open, key+": stores something unknown")
						continue
					}
					yes, no := d.formTruth(o.st, y, forms[q.entry])
					if v == ttTrue && no || v == ttFalse && yes || !yes && !no && !o.st.guess {
						bad = fmt.Sprintf("stores a wrong answer for a %s (%s)", k.name, p.pos(o.ret.Pos()))
					}
				}
			}
			switch {
			case bad != "":
				c.Bad("predicate", key, p.pos(f.Pos()), bad)
			case judged > 0 && d.lost == "":
				c.Ok("predicate", key, p.pos(f.Pos()))
			default:
				open = append(open, key+": "+d.lost)
			}
		}
	}
	sort.Strings(open)
	c.Extra["open predicate"] = open
}

// cnfFlag: what the factory records about a new formula is true.
func (c *Ctx) cnfFlag(df *denFacts) {
	p := c.P
	c.Rule("flag", "the factory records of a new conjunction or disjunction that it is a CNF exactly if it is one", 6)
	cnf := int64(-1)
	for n, v := range enumValues(p, "formula", "PredicateCacheSort") {
		if strings.HasSuffix(n, "CNF") {
			cnf = v
		}
	}
	type res struct {
		judged int
		bad    string
		open   int
	}
	var mu sync.Mutex
	out := map[string]*res{}
	factoryRuns(p, df, func(d *den, st *dst, j *facJob, ops []dval, entry int64, val tt, known bool) {
		if entry != cnf || j.conn != "SortAnd" && j.conn != "SortOr" {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		key := fmt.Sprintf("%s|%s|%d%s", j.name, j.conn[4:], j.n, strings.ReplaceAll(strings.Join(j.sorts, ""), "Sort", "|"))
		r := out[key]
		if r == nil {
			r = &res{}
			out[key] = r
		}
		want, ok := d.isCNFOf(st, j.conn, ops)
		if !known || !ok && st.guess || val != ttTrue && val != ttFalse {
			r.open++
			return
		}
		r.judged++
		if (!ok || want != (val == ttTrue)) && r.bad == "" {
			var ss []string
			for _, o := range ops {
				ss = append(ss, d.showMask(st, o))
			}
			if !ok {
				r.bad = "without having looked at all operands "
			}
			r.bad += fmt.Sprintf("records %v for operands of the sorts %s", val == ttTrue, strings.Join(ss, ", "))
		}
	})
	var open []string
	for key, r := range out {
		f := p.Func("formula", "CachingFactory."+key[:strings.Index(key, "|")])
		switch {
		case r.bad != "":
			c.Bad("flag", key, p.pos(f.Pos()), r.bad)
		case r.judged > 0:
			c.Ok("flag", key, p.pos(f.Pos()))
		}
		if r.open > 0 {
			open = append(open, fmt.Sprintf("%s: %d of %d", key, r.open, r.open+r.judged))
		}
	}
	sort.Strings(open)
	c.Extra["open flag"] = open
}

func (d *den) showMask(st *dst, v dval) string {
	x, ok := v.(dDen)
	if !ok {
		return "?"
	}
	var ss []string
	for n, i := range d.sort {
		if st.mask(x.id)&(1<<i) != 0 {
			ss = append(ss, strings.TrimPrefix(n, "Sort"))
		}
	}
	sort.Strings(ss)
	return strings.Join(ss, "/")
}

// isCNFOf: is the conjunction or disjunction of the operands a CNF?
func (d *den) isCNFOf(st *dst, conn string, ops []dval) (bool, bool) {
	flat := []dDen{}
	for _, o := range ops {
		x, ok := o.(dDen)
		if !ok {
			return false, false
		}
		if st.mask(x.id) == d.bit(conn) {
			es, ok := d.operands(st, x)
			if !ok {
				return false, false
			}
			for _, e := range es {
				y, ok := e.(dDen)
				if !ok {
					return false, false
				}
				flat = append(flat, y)
			}
			continue
		}
		if st.mask(x.id)&d.bit(conn) != 0 {
			return false, false
		}
		flat = append(flat, x)
	}
	all := true
	for _, x := range flat {
		m := st.mask(x.id) &^ d.bit("SortTrue", "SortFalse")
		lit := d.bit("SortLiteral")
		switch {
		case m&^lit == 0:
		case conn == "SortOr" && m&lit == 0, m&(lit|d.bit("SortOr")) == 0:
			return false, true
		case conn == "SortAnd" && m == d.bit("SortOr"):
			yes, no := d.formTruth(st, x, shClause)
			if no {
				return false, true
			}
			if !yes {
				all = false
			}
		default:
			all = false
		}
	}
	return all, all
}
