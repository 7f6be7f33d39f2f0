package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// The encoders that give a formula to a solver as clauses with auxiliary
// variables: for a sub-formula x and a polarity they emit clauses E and return
// literals R so that E and one of R being true makes x true (false for the
// negative polarity), and giving every auxiliary variable the value of its
// sub-formula makes E true and one of R exactly if x is true (false).

type encFn struct {
	f        *ssa.Function
	par      int
	bools    []int
	pol, top int // positions in bools; top -1: none
	two      int // the call that gives two literals
}

func isNumT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && !isFormulaT(t)
}

func numList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNumT(s.Elem())
}

// encoders finds the recursive functions from a formula and a polarity to literals of a solver.
func encoders(p *Program) []encFn {
	var out []encFn
	for _, f := range p.Funcs {
		if f.Parent() != nil || len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 || !numList(f.Signature.Results().At(0).Type()) {
			continue
		}
		e := encFn{f: f, par: -1}
		n := 0
		for i, q := range f.Params {
			if isNamed(q.Type(), "formula", "Formula") {
				e.par = i
				n++
			}
			if q.Type() == types.Typ[types.Bool] {
				e.bools = append(e.bools, i)
			}
		}
		if n != 1 || len(e.bools) == 0 || len(e.bools) > 2 || !p.Reach(p.callees(f)...)[f] || !asksSort(p, f, e.par) {
			continue
		}
		out = append(out, e)
	}
	// a function that takes care of one sort only is part of the one that calls it
	var roots []encFn
	for _, e := range out {
		if handlesLiterals(p, e) {
			roots = append(roots, e)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return rel(roots[i].f) < rel(roots[j].f) })
	return roots
}

func handlesLiterals(p *Program, e encFn) bool {
	df := newDenFacts(p)
	bs := make([]bool, len(e.bools))
	e.pol, e.top = 0, -1
	n := 0
	for _, o := range runEnc(p, df, e, dcases[2], bs, e, nil) {
		if o.out.panic {
			continue
		}
		n++
		r, ok := clause(o.d, o.out.st, o.out.rets[0])
		if !ok || o.d.lost != "" || r != o.x.t && r != o.x.t.not() {
			return false
		}
	}
	return n > 0
}

type encOut struct {
	out dout
	d   *den
	x   dDen
	ts  []tt
	n   int // atoms of the operands
}

// receiver type name of a method, or nil
func recvNamed(f *ssa.Function) types.Type {
	if f == nil || f.Signature.Recv() == nil {
		return nil
	}
	return deref(f.Signature.Recv().Type())
}

func runEnc(p *Program, df *denFacts, e encFn, k dcase, bs []bool, roles encFn, open *string) []encOut {
	d := newDen(p, df)
	d.root = e.f
	d.pkgs[pkgOf(e.f)] = true
	own := recvNamed(e.f)
	d.loose = own
	st := newDst()
	x, _ := d.top(st, k)
	base := st.atoms
	d.emits = func(cc *ssa.CallCommon, callee *ssa.Function, args []dval) (dval, bool) {
		if cc.Signature().Results().Len() > 0 && numList(cc.Signature().Results().At(0).Type()) {
			return nil, false
		}
		if callee != nil && (callee.Signature.Recv() == nil || types.Identical(recvNamed(callee), own)) {
			return nil, false
		}
		off := 0
		if callee != nil {
			off = 1
		}
		for i := 0; i < cc.Signature().Params().Len(); i++ {
			if numList(cc.Signature().Params().At(i).Type()) && i+off < len(args) {
				return args[i+off], true
			}
		}
		return nil, false
	}
	d.hyp = func(d *den, g *ssa.Function, args []dval, st *dst) ([]dcall, bool) {
		if canonOf(g) != canonOf(e.f) {
			if v, neg, ok := keeps(g, args); ok && !neg {
				return []dcall{{st, d.of(v.t)}}, true
			}
			return nil, false
		}
		t, ok := d.den(st, args[e.par])
		if !ok {
			return []dcall{{st, d.unk()}}, true
		}
		b := make([]bool, len(e.bools))
		for i, j := range e.bools {
			v, ok := d.truth(st, args[j])
			if !ok || v != ttTrue && v != ttFalse {
				return []dcall{{st, d.unk()}}, true
			}
			b[i] = v == ttTrue
		}
		if !b[roles.pol] {
			t = t.not()
		}
		var res []dcall
		if roles.top >= 0 && b[roles.top] {
			all := st.clone()
			all.emit = append(all.emit, []dval{d.of(t)})
			res = append(res, dcall{all, dNil{}})
		}
		a := st.atoms
		v, ok := d.atom(st)
		if !ok {
			d.lost = "too many sub-formulas"
			return append(res, dcall{st, d.unk()}), true
		}
		lits, some, mean := []dval{d.of(v)}, v, t
		if len(st.hyps) == roles.two {
			// one of the operands has two literals
			b, ok := d.atom(st)
			c, ok2 := d.atom(st)
			if ok && ok2 {
				lits, some = append(lits, d.of(b)), v.or(b)
				mean = t.and(c)
				st.repl[a+1] = t.and(c.not())
				st.repl[a+2] = c
			}
		}
		st.hyps = append(st.hyps, some.not().or(t))
		st.repl[a] = mean
		return append(res, dcall{st, d.list(st, lits)}), true
	}
	args := make([]dval, len(e.f.Params))
	for i := range args {
		args[i] = d.unk()
	}
	args[e.par] = x
	for i, j := range e.bools {
		args[j] = d.b2i(bs[i])
	}
	var outs []encOut
	for _, o := range d.run(e.f, args, nil, st) {
		outs = append(outs, encOut{o, d, x, nil, base})
	}
	if d.lost != "" && open != nil {
		*open = d.lost
	}
	return outs
}

type encRes struct {
	name, bad, open string
	judged          int
	signs           map[bool]bool   // of the auxiliary literal
	found           map[string]bool // flags of a table entry that are set where the literal is found again
	stored          map[string]bool // flags that are set where it is introduced
	noflag          bool            // the literal is found again without a look at a flag
}

func (e encFn) analyse(p *Program, df *denFacts, k dcase, flipped bool) []encRes {
	var res []encRes
	for m := 0; m < 1<<len(e.bools); m++ {
		bs := make([]bool, len(e.bools))
		name := k.name
		for i := range bs {
			bs[i] = m>>i&1 == 1
			name += fmt.Sprintf(", %s=%v", e.f.Params[e.bools[i]].Name(), bs[i])
		}
		pol := bs[e.pol] != flipped
		top := e.top >= 0 && bs[e.top]
		r := encRes{name: name}
		for _, o := range runEnc(p, df, e, k, bs, e, &r.open) {
			if o.out.panic || k.pos != 0 && k.sort != "SortLiteral" {
				continue
			}
			st, d := o.out.st, o.d
			T := o.x.t
			if !pol {
				T = T.not()
			}
			E, ok := conj(d, st, st.emit)
			R, okR := clause(d, st, o.out.rets[0])
			if !ok || !okR {
				r.open = "unknown clauses"
				continue
			}
			r.judged++
			_, isNil := o.out.rets[0].(dNil)
			H := st.pc
			for _, h := range st.hyps {
				H = H.and(h)
			}
			given := H.and(E)
			if !isNil {
				given = given.and(R)
			} else if !top {
				r.bad = "no literal is returned (" + p.pos(o.out.ret.Pos()) + ")"
				continue
			}
			// auxiliary literals that are returned
			repl := cpM(st.repl)
			cachedForm := false
			for a := o.n; a < st.atoms; a++ {
				if _, has := repl[a]; has {
					continue
				}
				pos := atomTT[a].implies(R)
				neg := atomTT[a].not().implies(R)
				if isNil || !pos && !neg || pos && neg {
					continue
				}
				if k.sort != "SortLiteral" && len(st.emit) == 0 && (R == atomTT[a] || R == atomTT[a].not()) {
					cachedForm = true
				}
				if r.signs == nil {
					r.signs = map[bool]bool{}
				}
				r.signs[pos] = true
				repl[a] = T
				if neg {
					repl[a] = T.not()
				}
			}
			flags := map[string]bool{}
			for key, id := range st.inits {
				i := strings.LastIndexByte(key, '.')
				if i < 0 || key[0] != 'u' {
					continue
				}
				if cachedForm && st.bools[fmt.Sprint(id)] {
					flags[key[i:]] = true
				}
				if v, ok := st.heap[st.lazy[key]].(dInt); ok && v == 1 && !cachedForm {
					flags[key[i:]] = true
				}
			}
			to := &r.stored
			if cachedForm {
				to = &r.found
				r.noflag = r.noflag || len(flags) == 0
			}
			if *to == nil {
				*to = map[string]bool{}
			}
			for f := range flags {
				(*to)[f] = true
			}
			if cachedForm {
				continue // the definition was emitted before; its sign is compared below
			}
			if !given.implies(T) && r.bad == "" {
				r.bad = fmt.Sprintf("the clauses and the returned literals do not imply it (%s)", p.pos(o.out.ret.Pos()))
			}
			all := E
			if !isNil {
				all = all.and(R.iff(T))
			} else {
				all = all.iff(T)
			}
			for a := o.n; a < st.atoms; a++ {
				if t, has := repl[a]; has {
					all = all.subst(a, t)
				}
			}
			for a := o.n; a < st.atoms; a++ {
				if _, has := repl[a]; !has {
					all = all.subst(a, ttTrue).or(all.subst(a, ttFalse))
				}
			}
			if bad := st.pc.and(all.not()); !bad.isFalse() && r.bad == "" {
				r.bad = fmt.Sprintf("the clauses exclude a solution (%s)", p.pos(o.out.ret.Pos()))
			}
		}
		if len(r.signs) == 2 && r.bad == "" {
			r.bad = "the auxiliary literal has one sign where it is introduced and another where it is found again"
		}
		res = append(res, r)
	}
	// one auxiliary variable serves both polarities
	for i := range res {
		for j := range res {
			bi, bj := i>>e.pol&1 == 1, j>>e.pol&1 == 1
			if bi && !bj && len(res[i].signs) == 1 && len(res[j].signs) == 1 && res[i].bad == "" && res[i].signs[true] == res[j].signs[true] {
				res[i].bad = "the auxiliary literal has the same sign for both polarities"
			}
		}
	}
	for i := range res {
		for j := range res {
			if res[i].bad != "" || i>>e.pol&1 == j>>e.pol&1 {
				continue
			}
			for f := range res[i].found {
				if res[j].stored[f] {
					res[i].bad = "its definition counts as present after the definition for the other polarity"
				}
			}
			if res[i].noflag && len(res[j].stored) > 0 {
				res[i].bad = "its definition counts as present whichever polarity was defined"
			}
		}
	}
	return res
}

func clause(d *den, st *dst, v dval) (tt, bool) {
	es, ok := d.elems(st, v)
	if !ok {
		return tt{}, false
	}
	r := ttFalse
	for _, e := range es {
		if al, ok := d.asUnkDen(st, d.anyLit(e)); ok {
			e = al
		}
		t, ok := d.den(st, e)
		if !ok {
			return tt{}, false
		}
		r = r.not().and(t.not()).not()
	}
	return r, true
}

func conj(d *den, st *dst, cs [][]dval) (tt, bool) {
	r := ttTrue
	for _, c := range cs {
		t := ttFalse
		for _, e := range c {
			u, ok := d.den(st, e)
			if !ok {
				return tt{}, false
			}
			t = t.or(u)
		}
		r = r.and(t)
	}
	return r, true
}

func (c *Ctx) encoderRule(df *denFacts) {
	p := c.P
	c.Rule("encoder", "the clauses an encoder emits for a sub-formula, with the literals it returns, imply the sub-formula (its negation) and exclude no solution", 40)
	open := []string{}
	for _, e := range encoders(p) {
		type cand struct {
			e    encFn
			flip bool
			res  []encRes
			bad  int
		}
		var cands []*cand
		for pol := range e.bools {
			for _, flip := range []bool{false, true} {
				x := e
				x.pol, x.top = pol, -1
				if len(e.bools) == 2 {
					x.top = 1 - pol
				}
				cands = append(cands, &cand{e: x, flip: flip})
			}
		}
		var wg sync.WaitGroup
		for _, cd := range cands {
			wg.Add(1)
			go func(cd *cand) {
				defer wg.Done()
				for _, k := range dcases {
					var rs []encRes
					for two := 0; two < 4 && (two == 0 || k.n >= 2); two++ {
						cd.e.two = two
						for i, r := range cd.e.analyse(p, df, k, cd.flip) {
							if two == 0 {
								rs = append(rs, r)
							} else if rs[i].bad == "" {
								rs[i].bad = r.bad
							}
						}
					}
					cd.res = append(cd.res, rs...)
				}
				for _, r := range cd.res {
					if r.bad != "" {
						cd.bad++
					}
				}
			}(cd)
		}
		wg.Wait()
		best := cands[0]
		for _, cd := range cands {
			if cd.bad < best.bad {
				best = cd
			}
		}
		for _, r := range best.res {
			key := rel(e.f) + "|" + r.name
			switch {
			case r.bad != "":
				c.Bad("encoder", key, p.pos(e.f.Pos()), "the encoding of a "+r.name+": "+r.bad)
			case r.judged > 0:
				c.Ok("encoder", key, p.pos(e.f.Pos()))
			default:
				open = append(open, key+": "+r.open)
			}
		}
	}
	c.Extra["open encoders"] = open
}

// ---- definitional transformations with tables of literals

type defFn struct {
	f    *ssa.Function
	par  int
	kind string // iff, implies
	rec  bool
}

// litTables: the type has maps from formulas to literals and formulas.
func litTables(t types.Type) bool {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok && isNamed(m.Key(), "formula", "Formula") && isNamed(m.Elem(), "formula", "Literal") {
			return true
		}
	}
	return false
}

func definers(p *Program) []defFn {
	var out []defFn
	for _, f := range p.Funcs {
		if f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		par, n, tab := -1, 0, false
		for i, q := range f.Params {
			if isNamed(q.Type(), "formula", "Formula") {
				par = i
				n++
			}
			tab = tab || litTables(q.Type())
		}
		if n != 1 || !tab {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() > 1 || rs.Len() == 1 && !isNamed(rs.At(0).Type(), "formula", "Formula") {
			continue
		}
		rec := asksSort(p, f, par) && p.Reach(p.callees(f)...)[f]
		if rec || exported(f) && rs.Len() == 1 {
			out = append(out, defFn{f: f, par: par, rec: rec})
		}
	}
	sort.Slice(out, func(i, j int) bool { return rel(out[i].f) < rel(out[j].f) })
	return out
}

func (k defFn) name() string {
	if k.kind == "iff" {
		return "equivalent to"
	}
	return "implying"
}

// of gives the meaning of the definition of a formula with a literal.
func (k defFn) of(lit, t tt) tt {
	if k.kind == "iff" {
		return lit.iff(t)
	}
	return lit.not().or(t)
}

func (e defFn) analyse(p *Program, df *denFacts, k dcase, defs map[*ssa.Function]defFn) encRes {
	res := encRes{name: k.name}
	d := newDen(p, df)
	d.root = e.f
	d.pkgs[pkgOf(e.f)] = true
	kind := e
	if !e.rec {
		for g := range p.Reach(e.f) {
			if x, ok := defs[canonOf(g)]; ok {
				kind = x
			}
		}
	}
	st := newDst()
	x, _ := d.top(st, k)
	base := st.atoms
	litOf := func(st *dst, v dDen, known bool) dDen {
		key := fmt.Sprint("L", v.id)
		if l, ok := st.tab[key].(dDen); ok {
			return l
		}
		if st.mask(v.id) == 1<<d.sort["SortLiteral"] {
			st.tab[key] = v
			return v
		}
		a := st.atoms
		t, ok := d.atom(st)
		if !ok {
			d.lost = "too many sub-formulas"
			return dDen{ttFalse, d.id()}
		}
		l := dDen{t, d.id()}
		st.sorts[l.id] = 1 << d.sort["SortLiteral"]
		st.repl[a] = v.t
		st.tab[key] = l
		return l
	}
	def := func(st *dst, v dDen, own bool) dDen {
		l := litOf(st, v, true)
		st.tab[fmt.Sprint("D", v.id)] = dInt(1)
		if st.mask(v.id) == 1<<d.sort["SortLiteral"] {
			if own {
				return v
			}
			return dDen{ttTrue, d.id()}
		}
		return dDen{kind.of(l.t, v.t), d.id()}
	}
	d.hyp = func(d *den, g *ssa.Function, args []dval, st *dst) ([]dcall, bool) {
		if c, ok := defs[canonOf(g)]; ok || e.rec && canonOf(g) == canonOf(e.f) {
			if !ok {
				c = e
			}
			v, ok := args[c.par].(dDen)
			if !ok {
				return []dcall{{st, d.unkRes(resType(g))}}, true
			}
			r := def(st, v, false)
			if g.Signature.Results().Len() == 0 {
				return []dcall{{st, d.unk()}}, true
			}
			return []dcall{{st, r}}, true
		}
		if pk := pkgOf(g); pk != nil && inModule(g) {
			switch shortPkg(pk) + "." + g.Name() {
			case "formula.SubNodes":
				return []dcall{{st, d.list(st, []dval{args[1]})}}, true
			case "assignment.New":
				return []dcall{{st, dStruct{[]dval{args[1], d.unk()}}}}, true
			case "assignment.Restrict":
				v, ok := args[1].(dDen)
				es, ok2 := d.elems(st, args[2])
				if !ok || !ok2 {
					return []dcall{{st, d.unk()}}, true
				}
				t := v.t
				for _, l := range es {
					u, ok := l.(dDen)
					at := -1
					for i := range atomTT {
						if ok && (u.t == atomTT[i] || u.t == atomTT[i].not()) {
							at = i
						}
					}
					if at < 0 {
						return []dcall{{st, d.unk()}}, true
					}
					if u.t == atomTT[at] {
						t = t.subst(at, ttTrue)
					} else {
						t = t.subst(at, ttFalse)
					}
				}
				return []dcall{{st, d.of(t)}}, true
			}
		}
		if v, neg, ok := keeps(g, args); ok && !neg && canonOf(g) != canonOf(e.f) {
			return []dcall{{st, d.of(v.t)}}, true
		}
		return nil, false
	}
	d.onLookup = func(st *dst, x *ssa.Lookup, k dval) ([]dcall, bool) {
		mt := x.X.Type().Underlying().(*types.Map)
		v, ok := k.(dDen)
		if !ok || !isNamed(mt.Key(), "formula", "Formula") {
			return nil, false
		}
		lit := isNamed(mt.Elem(), "formula", "Literal")
		if !lit && !isNamed(mt.Elem(), "formula", "Formula") {
			return nil, false
		}
		val := func(st *dst) dval {
			if lit {
				return litOf(st, v, true)
			}
			if f, ok := st.tab[fmt.Sprint("F", v.id)].(dDen); ok {
				return f
			}
			return def(st, v, true)
		}
		_, hasL := st.tab[fmt.Sprint("L", v.id)]
		_, hasD := st.tab[fmt.Sprint("D", v.id)]
		known := hasD || lit && hasL
		if !x.CommaOk {
			if !known {
				st.tab[fmt.Sprint("missing", v.id)] = dInt(1)
			}
			return []dcall{{st, val(st)}}, true
		}
		yes := st.clone()
		r := []dcall{{yes, dStruct{[]dval{val(yes), dInt(1)}}}}
		if !known {
			r = append(r, dcall{st, dStruct{[]dval{d.zero(mt.Elem()), dInt(0)}}})
		}
		return r, true
	}
	missing := ""
	d.onUpdate = func(st *dst, k, v dval, x *ssa.MapUpdate) {
		mt := x.Map.Type().Underlying().(*types.Map)
		kd, ok := k.(dDen)
		vd, ok2 := v.(dDen)
		if !ok || !isNamed(mt.Key(), "formula", "Formula") {
			return
		}
		if !ok2 {
			if isNamed(mt.Elem(), "formula", "Literal") {
				missing = "nothing is known of the literal that is recorded (" + p.pos(x.Pos()) + ")"
			}
			return
		}
		if isNamed(mt.Elem(), "formula", "Literal") {
			for key, l := range st.tab {
				if l == vd && key[0] == 'L' && st.tab["missing"+key[1:]] == dInt(1) {
					res.bad = "a literal is recorded that was looked up without a check that it is there (" + p.pos(x.Pos()) + ")"
				}
			}
			key := fmt.Sprint("L", kd.id)
			if _, has := st.tab[key]; !has {
				for i := range atomTT {
					if _, has := st.repl[i]; !has && i >= base && vd.t == atomTT[i] {
						st.repl[i] = kd.t
					}
				}
			}
			st.tab[key] = vd
		} else if isNamed(mt.Elem(), "formula", "Formula") {
			st.tab[fmt.Sprint("F", kd.id)] = vd
			st.tab[fmt.Sprint("D", kd.id)] = dInt(1)
		}
	}
	args := make([]dval, len(e.f.Params))
	for i := range args {
		args[i] = d.unk()
	}
	args[e.par] = x
	for _, o := range d.run(e.f, args, nil, st) {
		if o.panic {
			continue
		}
		var V tt
		ok := true
		l, hasL := o.st.tab[fmt.Sprint("L", x.id)].(dDen)
		if len(o.rets) == 0 {
			if f, has := o.st.tab[fmt.Sprint("F", x.id)].(dDen); has {
				V = f.t
			} else if _, has := o.st.tab[fmt.Sprint("D", x.id)]; has {
				continue // defined before
			} else {
				res.bad = "no definition is recorded (" + p.pos(o.ret.Pos()) + ")"
				continue
			}
		} else {
			V, ok = d.den(o.st, o.rets[0])
		}
		if !ok || missing != "" {
			res.open = "unknown result " + missing
			continue
		}
		res.judged++
		T := ttTrue
		if e.rec {
			if !hasL && k.sort == "SortLiteral" {
				l, hasL = x, true
			}
			if !hasL {
				if res.bad == "" {
					res.bad = "no literal is recorded (" + p.pos(o.ret.Pos()) + ")"
				}
				continue
			}
			if k.sort == "SortLiteral" {
				if l.t != x.t && res.bad == "" {
					res.bad = "the literal of a literal is another one (" + p.pos(o.ret.Pos()) + ")"
				}
				continue
			}
			T = e.of(l.t, x.t)
		} else {
			T = x.t
		}
		sound := o.st.pc.and(V).implies(T)
		complete := V.not().or(T)
		if e.rec {
			complete = V
		} else {
			complete = V.iff(T)
		}
		for a := base; a < o.st.atoms; a++ {
			if t, has := o.st.repl[a]; has {
				complete = complete.subst(a, t)
			}
		}
		if !sound && res.bad == "" {
			res.bad = "the result does not define it (" + p.pos(o.ret.Pos()) + ")"
		}
		if bad := o.st.pc.and(complete.not()); !bad.isFalse() && res.bad == "" {
			res.bad = "the result excludes a solution (" + p.pos(o.ret.Pos()) + ")"
		}
	}
	if d.lost != "" {
		res.open = d.lost
	}
	return res
}

func (c *Ctx) definitionRule(df *denFacts) {
	p := c.P
	c.Rule("definition", "a transformation with auxiliary variables gives a formula that defines the literal of every sub-formula (Tseitin: equivalent to, Plaisted-Greenbaum: implying the sub-formula), excludes no solution, and records the literals it uses", 8)
	open := []string{}
	ds := definers(p)
	defs := map[*ssa.Function]defFn{}
	results := map[*ssa.Function][]encRes{}
	run := func(e defFn) ([]encRes, int) {
		var rs []encRes
		bad := 0
		for _, k := range dcases {
			if e.rec && k.sort != "SortLiteral" && k.sort != "SortAnd" && k.sort != "SortOr" {
				continue
			}
			r := e.analyse(p, df, k, defs)
			if r.bad != "" {
				bad++
			}
			rs = append(rs, r)
		}
		return rs, bad
	}
	for _, e := range ds {
		if !e.rec {
			continue
		}
		best := -1
		for _, kind := range []string{"iff", "implies"} {
			e.kind = kind
			if kind == "implies" && strings.Contains(strings.ToLower(e.f.Name()), "tseitin") {
				continue // the definitions are equivalences
			}
			rs, bad := run(e)
			if best < 0 || bad < best {
				best = bad
				defs[canonOf(e.f)] = e
				results[canonOf(e.f)] = rs
			}
		}
	}
	// a recursive function that only looks up what others define is no definer of its own
	for _, e := range ds {
		if !e.rec {
			rs, _ := run(e)
			results[canonOf(e.f)] = rs
		}
	}
	for _, e := range ds {
		for _, r := range results[canonOf(e.f)] {
			key := rel(e.f) + "|" + r.name
			switch {
			case r.bad != "":
				c.Bad("definition", key, p.pos(e.f.Pos()), "the definition of a "+r.name+": "+r.bad)
			case r.judged > 0:
				c.Ok("definition", key, p.pos(e.f.Pos()))
			default:
				open = append(open, key+": "+r.open)
			}
		}
	}
	c.Extra["open definitions"] = open
}
