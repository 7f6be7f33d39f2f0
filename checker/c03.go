package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C03"] = checkC03 }

// lin is an affine form over the handler's fields at entry ("f:<name>"), the
// payload of the event ("p:<name>") and constants.
type lin struct {
	c map[string]int64
	k int64
}

func linVar(n string) *lin { return &lin{map[string]int64{n: 1}, 0} }
func linK(k int64) *lin    { return &lin{map[string]int64{}, k} }
func (l *lin) add(o *lin, s int64) *lin {
	n := &lin{map[string]int64{}, l.k + s*o.k}
	for v, x := range l.c {
		n.c[v] += x
	}
	for v, x := range o.c {
		n.c[v] += s * x
		if n.c[v] == 0 {
			delete(n.c, v)
		}
	}
	return n
}
func (l *lin) String() string {
	var vs []string
	for v, x := range l.c {
		vs = append(vs, fmt.Sprintf("%d*%s", x, v))
	}
	sort.Strings(vs)
	return fmt.Sprintf("%s+%d", strings.Join(vs, "+"), l.k)
}
func (l *lin) shape() string { return (&lin{l.c, 0}).String() }

// hval is a value of the handler interpreter.
type hval struct {
	kind string // "", "lin", "bool", "fld" (boolean field at entry), "evt", "evc", "recv", "atom", "pay"
	l    *lin
	b    bool
	n    string // event constant, field
	op   token.Token
}

func (h hval) String() string {
	switch h.kind {
	case "lin":
		return h.l.String()
	case "atom":
		return fmt.Sprintf("%v[%s %s 0]", h.b, h.l, h.op)
	}
	return fmt.Sprintf("%s:%s:%v", h.kind, h.n, h.b)
}

type hatom struct {
	l    *lin
	op   token.Token
	fld  string
	want bool
}

type hpath struct {
	cons   []hatom
	fields map[string]hval
	ret    hval
}

type hstate struct {
	val  map[ssa.Value]hval
	mem  map[string]hval
	cons []hatom
}

func (s *hstate) clone() *hstate {
	n := &hstate{map[ssa.Value]hval{}, map[string]hval{}, append([]hatom{}, s.cons...)}
	for k, v := range s.val {
		n.val[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	return n
}

type hsim struct {
	event  string // name of the event variable, or "type:<T>" for a payload event
	out    []hpath
	st     *types.Struct
	failed string
	steps  int
}

func (h *hsim) field(i int) string { return h.st.Field(i).Name() }

func (h *hsim) get(s *hstate, v ssa.Value) hval {
	if x, ok := s.val[v]; ok {
		return x
	}
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		switch c.Value.Kind() {
		case constant.Bool:
			return hval{kind: "bool", b: constant.BoolVal(c.Value)}
		case constant.Int:
			if k, ok := constant.Int64Val(c.Value); ok {
				return hval{kind: "lin", l: linK(k)}
			}
		}
	}
	return hval{}
}

func (h *hsim) exec(fn *ssa.Function, s *hstate, depth int, ret func(*hstate, []hval)) {
	h.walk(fn, fn.Blocks[0], nil, 0, s, depth, map[*ssa.BasicBlock]int{}, ret)
}

func (h *hsim) walk(fn *ssa.Function, b, pred *ssa.BasicBlock, from int, s *hstate, depth int, visits map[*ssa.BasicBlock]int, ret func(*hstate, []hval)) {
	h.steps++
	if h.steps > 20000 {
		h.failed = "too many paths"
		return
	}
	if from == 0 {
		visits[b]++
		defer func() { visits[b]-- }()
		if visits[b] > 1 {
			h.failed = "a loop in the decision of a handler"
			return
		}
		var ps []*ssa.Phi
		var vs []hval
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for k, q := range b.Preds {
				if q == pred {
					ps = append(ps, ph)
					vs = append(vs, h.get(s, ph.Edges[k]))
				}
			}
		}
		for i := range ps {
			s.val[ps[i]] = vs[i]
		}
	}
	for i := from; i < len(b.Instrs); i++ {
		switch x := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			h.walk(fn, b.Succs[0], b, 0, s, depth, visits, ret)
			return
		case *ssa.Return:
			var vs []hval
			for _, r := range x.Results {
				vs = append(vs, h.get(s, r))
			}
			ret(s, vs)
			return
		case *ssa.Panic:
			return
		case *ssa.If:
			c := h.get(s, x.Cond)
			if c.kind == "bool" {
				k := 1
				if c.b {
					k = 0
				}
				h.walk(fn, b.Succs[k], b, 0, s, depth, visits, ret)
				return
			}
			for k := 0; k < 2; k++ {
				n := s.clone()
				if c.kind == "atom" {
					n.cons = append(n.cons, hatom{l: c.l, op: c.op, want: (k == 0) == c.b})
				}
				if c.kind == "fld" {
					n.cons = append(n.cons, hatom{fld: c.n, want: (k == 0) == c.b})
				}
				if _, isC := x.Cond.(*ssa.Const); !isC {
					n.val[x.Cond] = hval{kind: "bool", b: k == 0}
				}
				h.walk(fn, b.Succs[k], b, 0, n, depth, visits, ret)
			}
			return
		case *ssa.Call:
			g := staticCallee(&x.Call)
			if g != nil && g.Blocks != nil && depth < 4 && inModule(g) {
				sub := s.clone()
				for k, p := range g.Params {
					if k < len(x.Call.Args) {
						sub.val[p] = h.get(s, x.Call.Args[k])
					}
				}
				rest := i + 1
				h.exec(g, sub, depth+1, func(r *hstate, vs []hval) {
					n := r.clone()
					if len(vs) == 1 {
						n.val[x] = vs[0]
					} else {
						for _, e := range extracts(x) {
							n.val[e] = vs[e.Index]
						}
					}
					h.walk(fn, b, pred, rest, n, depth, visits, ret)
				})
				return
			}
			for _, a := range x.Call.Args {
				if h.get(s, a).kind == "recv" {
					h.failed = "the receiver is handed to an unresolved call"
				}
			}
			delete(s.val, x)
		default:
			h.step(s, x)
		}
	}
}

func (h *hsim) step(s *hstate, in ssa.Instruction) {
	v, isVal := in.(ssa.Value)
	if isVal {
		if _, ok := in.(*ssa.Extract); !ok {
			delete(s.val, v)
		}
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		s.val[x] = hval{kind: "adr", n: fmt.Sprintf("l%p", x)}
	case *ssa.FieldAddr:
		b := h.get(s, x.X)
		if b.kind == "recv" {
			s.val[x] = hval{kind: "adr", n: "f:" + h.field(x.Field)}
		} else if b.kind == "adr" {
			if m := s.mem[b.n]; m.kind == "recv" || m.kind == "pay" {
				s.val[x] = hval{kind: "adr", n: "p:" + fieldName(deref(x.X.Type()), x.Field)}
			}
		}
	case *ssa.Field:
		b := h.get(s, x.X)
		if b.kind == "pay" {
			s.val[x] = hval{kind: "lin", l: linVar("p:" + fieldName(x.X.Type(), x.Field))}
		}
	case *ssa.UnOp:
		o := h.get(s, x.X)
		switch x.Op {
		case token.NOT:
			switch o.kind {
			case "bool", "atom", "fld":
				o.b = !o.b
				s.val[x] = o
			}
		case token.SUB:
			if o.kind == "lin" {
				s.val[x] = hval{kind: "lin", l: linK(0).add(o.l, -1)}
			}
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok {
				if g.Pkg != nil && g.Pkg.Pkg.Path() == modPath+"/event" {
					s.val[x] = hval{kind: "evc", n: g.Name()}
				}
				return
			}
			if o.kind == "adr" {
				if m, ok := s.mem[o.n]; ok {
					s.val[x] = m
				} else if strings.HasPrefix(o.n, "f:") {
					if isBool(x.Type()) {
						s.val[x] = hval{kind: "fld", n: o.n, b: true}
					} else {
						s.val[x] = hval{kind: "lin", l: linVar(o.n)}
					}
				} else if strings.HasPrefix(o.n, "p:") {
					s.val[x] = hval{kind: "lin", l: linVar(o.n)}
				}
			}
		}
	case *ssa.Store:
		a := h.get(s, x.Addr)
		if a.kind == "adr" {
			s.mem[a.n] = h.get(s, x.Val)
		} else if a.kind == "recv" {
			h.failed = "the handler is overwritten as a whole"
		}
	case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Convert:
		var ops [2]*ssa.Value
		s.val[v] = h.get(s, *in.Operands(ops[:0])[0])
	case *ssa.TypeAssert:
		o := h.get(s, x.X)
		if o.kind != "evt" {
			return
		}
		tn := ""
		if n, ok := types.Unalias(x.AssertedType).(*types.Named); ok {
			tn = n.Obj().Name()
		}
		match := h.event == "type:"+tn
		if x.CommaOk {
			for _, r := range *x.Referrers() {
				if e, ok := r.(*ssa.Extract); ok {
					if e.Index == 1 {
						s.val[e] = hval{kind: "bool", b: match}
					} else {
						s.val[e] = hval{kind: "pay"}
					}
				}
			}
		} else if match {
			s.val[x] = hval{kind: "pay"}
		}
	case *ssa.BinOp:
		l, r := h.get(s, x.X), h.get(s, x.Y)
		switch x.Op {
		case token.ADD, token.SUB:
			if l.kind == "lin" && r.kind == "lin" {
				k := int64(1)
				if x.Op == token.SUB {
					k = -1
				}
				s.val[x] = hval{kind: "lin", l: l.l.add(r.l, k)}
			}
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if l.kind == "evc" && r.kind == "evt" {
				l, r = r, l
			}
			if l.kind == "evt" && r.kind == "evc" {
				s.val[x] = hval{kind: "bool", b: (h.event == r.n) == (x.Op == token.EQL)}
				return
			}
			if l.kind == "lin" && r.kind == "lin" {
				d := l.l.add(r.l, -1)
				if len(d.c) == 0 {
					s.val[x] = hval{kind: "bool", b: holds(d.k, x.Op)}
					return
				}
				s.val[x] = hval{kind: "atom", l: d, op: x.Op, b: true}
				return
			}
			if l.kind == "bool" && (r.kind == "bool" || r.kind == "atom" || r.kind == "fld") {
				l, r = r, l
			}
			if r.kind == "bool" && (l.kind == "bool" || l.kind == "atom" || l.kind == "fld") {
				if r.b != (x.Op == token.EQL) {
					l.b = !l.b
				}
				s.val[x] = l
			}
		}
	}
}

func holds(d int64, op token.Token) bool {
	switch op {
	case token.EQL:
		return d == 0
	case token.NEQ:
		return d != 0
	case token.LSS:
		return d < 0
	case token.LEQ:
		return d <= 0
	case token.GTR:
		return d > 0
	}
	return d >= 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

func fieldName(t types.Type, i int) string {
	s := structOf(t)
	if s == nil || i >= s.NumFields() {
		return fmt.Sprint(i)
	}
	return s.Field(i).Name()
}

// limitSpec is what each limiting handler of the module limits.
type limitSpec struct {
	pkg, typ, ctor string
	start          string
	counts         []limitCount
	moves          map[string]bool // events that move counts between counters
}

type limitCount struct {
	event   string // event, or type:<payload type>
	param   int    // parameter of the constructor that is the limit
	by      string // "" = one, else the payload field
	atLimit bool   // cancels when the limit is reached (else: when exceeded)
	minus1  bool   // -1 means no limit
}

var limitSpecs = []limitSpec{
	{"normalform", "FactorizationHandler", "NewFactorizationHandler", "FactorizationStarted", []limitCount{
		{"DistributionPerformed", 0, "", false, true}, {"FactorizationCreatedClause", 1, "", false, true}}, nil},
	{"bdd", "NodesHandler", "HandlerWithNodes", "BddComputationStarted", []limitCount{{"BddNewRefAdded", 0, "", true, false}}, nil},
	{"model/iter", "LimitHandler", "HandlerWithLimit", "ModelEnumerationStarted", []limitCount{{"type:EventIteratorFoundModels", 0, "NumberOfModels", true, false}},
		map[string]bool{"ModelEnumerationCommit": true, "ModelEnumerationRollback": true}},
}

func (p *Program) simHandler(f *ssa.Function, ev string) *hsim {
	h := &hsim{event: ev, st: structOf(f.Params[0].Type())}
	s := &hstate{map[ssa.Value]hval{}, map[string]hval{}, nil}
	s.val[f.Params[0]] = hval{kind: "recv"}
	if len(f.Params) > 1 {
		s.val[f.Params[1]] = hval{kind: "evt"}
	}
	h.exec(f, s, 0, func(s *hstate, vs []hval) {
		pth := hpath{cons: s.cons, fields: map[string]hval{}}
		for k, v := range s.mem {
			if strings.HasPrefix(k, "f:") {
				pth.fields[k] = v
			}
		}
		if len(vs) == 1 {
			pth.ret = vs[0]
		}
		h.out = append(h.out, pth)
	})
	return h
}

// unchanged: the field's value at exit is its value at entry.
func unchanged(p hpath, f string) bool {
	v, ok := p.fields[f]
	if !ok {
		return true
	}
	switch v.kind {
	case "fld":
		return v.n == f && v.b
	case "lin":
		return v.l.String() == linVar(f).String()
	case "bool":
		for _, c := range p.cons {
			if c.fld == f && c.want == v.b {
				return true
			}
		}
	}
	return false
}

func zeroed(p hpath, f string) bool {
	v, ok := p.fields[f]
	if !ok {
		return false
	}
	return v.kind == "bool" && !v.b || v.kind == "lin" && len(v.l.c) == 0 && v.l.k == 0
}

func checkC03(c *Ctx) {
	p := c.P
	c.Rule("start-resets", "under the start event of the computation it limits, a handler with counters sets every field it ever changes to zero, on every path, and its answer depends on no earlier count", 3)
	c.Rule("counts-once", "each event a handler counts adds exactly the event's amount to one counter of its own, and its counters change under no other event", 4)
	c.Rule("limit-decides", "under a counted event the answer is resume exactly while the new count is within the limit given to the constructor (evaluated over the orderings of count and limit, and -1 where it means unlimited)", 4)
	c.Rule("constructed-fresh", "the constructor stores each limit in a field that is never written again and leaves the counters zero", 3)
	c.Rule("known-handlers", "every handler of the module with mutable state is one of the limiting handlers the rules describe", 1)
	c.Rule("events-distinct", "the events of the module are pairwise distinguishable values that are never reassigned", 25)

	evs := c.eventsDistinct()
	// handlers of the module
	seen := map[string]bool{}
	var hs []*ssa.Function
	for _, f := range p.Funcs {
		if f.Name() == "ShouldResume" && f.Signature.Recv() != nil && implementsHandlerFn(f) && f.Blocks != nil {
			hs = append(hs, f)
		}
	}
	for _, f := range hs {
		var spec *limitSpec
		for i := range limitSpecs {
			if isNamed(f.Signature.Recv().Type(), limitSpecs[i].pkg, limitSpecs[i].typ) {
				spec = &limitSpecs[i]
			}
		}
		key := rel(f)
		mut := p.mutableFields(f, c)
		if spec == nil {
			if len(mut) > 0 && !c.fixture {
				c.Bad("known-handlers", key, p.pos(f.Pos()), "a handler with mutable state that no rule describes: "+strings.Join(mut, ", "))
			} else {
				c.Ok("known-handlers", key, p.pos(f.Pos()))
			}
			continue
		}
		seen[spec.typ] = true
		c.Ok("known-handlers", key, p.pos(f.Pos()))
		c.checkLimit(f, spec, mut, evs)
	}
	for _, s := range limitSpecs {
		if !seen[s.typ] {
			c.Bad("known-handlers", s.pkg+"."+s.typ, "", "the limiting handler cannot be found")
		}
	}
}

func (c *Ctx) eventsDistinct() []string {
	p := c.P
	pk := p.ByPth["event"]
	if pk == nil {
		panic("package event not found")
	}
	sp := p.SSA.Package(pk.Types)
	val := map[string]string{}
	by := map[string]string{}
	var evs []string
	for n, m := range sp.Members {
		if g, ok := m.(*ssa.Global); ok && token.IsExported(n) {
			evs = append(evs, n)
			_ = g
		}
	}
	sort.Strings(evs)
	// constant texts stored by the package initialiser
	init := sp.Func("init")
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			g, txt := eventStore(st)
			if g != "" {
				val[g] = txt
			}
		}
	}
	for _, e := range evs {
		pos := p.pos(sp.Members[e].Pos())
		v, ok := val[e]
		switch {
		case !ok:
			c.Bad("events-distinct", "event."+e, pos, "the value of the event cannot be determined")
		case by[v] != "":
			c.Bad("events-distinct", "event."+e, pos, "same value as event "+by[v]+": handlers cannot tell the two apart")
		default:
			by[v] = e
			c.Ok("events-distinct", "event."+e, pos)
		}
	}
	for _, f := range p.Funcs {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g := globalBase(st.Addr); g != nil && g.Pkg == sp {
						c.Bad("events-distinct", rel(f)+" writes event."+g.Name(), p.pos(st.Pos()), "an event is reassigned")
					}
				}
			}
		}
	}
	return evs
}

func globalBase(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func eventStore(st *ssa.Store) (string, string) {
	if g := globalBase(st.Addr); g != nil {
		if cst, ok := st.Val.(*ssa.Const); ok && cst.Value != nil && cst.Value.Kind() == constant.String {
			return g.Name(), constant.StringVal(cst.Value)
		}
		if l, ok := st.Val.(*ssa.UnOp); ok && l.Op == token.MUL {
			if al, ok := l.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if fa, ok := r.(*ssa.FieldAddr); ok {
						for _, r2 := range *fa.Referrers() {
							if s2, ok := r2.(*ssa.Store); ok {
								if cst, ok := s2.Val.(*ssa.Const); ok && cst.Value != nil && cst.Value.Kind() == constant.String {
									return g.Name(), constant.StringVal(cst.Value)
								}
							}
						}
					}
				}
			}
		}
		if call, ok := st.Val.(*ssa.Call); ok && len(call.Call.Args) == 1 {
			if cst, ok := call.Call.Args[0].(*ssa.Const); ok && cst.Value != nil && cst.Value.Kind() == constant.String {
				return g.Name(), constant.StringVal(cst.Value)
			}
		}
	}
	return "", ""
}

// mutableFields are the receiver's fields that any function but a constructor
// (a function that allocates the handler itself) writes.
func (p *Program) mutableFields(f *ssa.Function, c *Ctx) []string {
	rt := deref(f.Signature.Recv().Type())
	m := map[string]bool{}
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(deref(fa.X.Type()), rt) {
					continue
				}
				if _, own := fa.X.(*ssa.Alloc); own {
					continue
				}
				m["f:"+fieldName(rt, fa.Field)] = true
			}
		}
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (c *Ctx) checkLimit(f *ssa.Function, spec *limitSpec, mut []string, evs []string) {
	p := c.P
	key, pos := rel(f), p.pos(f.Pos())
	mutable := map[string]bool{}
	for _, m := range mut {
		mutable[m] = true
	}
	bounds, why := p.ctorBounds(spec)
	for i, b := range bounds {
		if mutable[b] {
			why = fmt.Sprintf("limit %d of the constructor is held in %s, which is written later", i, b)
		}
	}
	c.Cond(why == "", "constructed-fresh", key, pos, why)
	if why != "" {
		return
	}
	// start
	h := p.simHandler(f, spec.start)
	bad := h.failed
	if len(h.out) == 0 && bad == "" {
		bad = "no path through the start event"
	}
	for _, pt := range h.out {
		for _, m := range mut {
			if !zeroed(pt, m) {
				bad = fmt.Sprintf("under event.%s the field %s keeps a value of the previous computation", spec.start, m[2:])
			}
		}
		for v := range pt.ret.lvars() {
			if mutable[v] {
				bad = "the answer to the start event depends on an earlier count: " + v[2:]
			}
		}
		if pt.ret.kind == "" || pt.ret.kind == "bool" && !pt.ret.b {
			bad = "the answer to the start event is not to resume"
		}
	}
	c.Cond(bad == "", "start-resets", key, pos, bad)

	counter := map[string]string{}
	isCount := map[string]bool{}
	for _, lc := range spec.counts {
		isCount[lc.event] = true
		h := p.simHandler(f, lc.event)
		bad, badL := h.failed, h.failed
		amount := linK(1)
		if lc.by != "" {
			amount = linVar("p:" + lc.by)
		}
		cnt := ""
		for _, pt := range h.out {
			mine := ""
			for _, m := range mut {
				if unchanged(pt, m) {
					continue
				}
				v := pt.fields[m]
				if v.kind == "bool" || v.kind == "atom" || v.kind == "fld" {
					continue
				}
				if v.kind == "lin" && v.l.String() == linVar(m).add(amount, 1).String() && mine == "" {
					mine = m
				} else {
					bad = fmt.Sprintf("under %s the field %s becomes %s", lc.event, m[2:], v)
				}
			}
			if mine == "" {
				bad = fmt.Sprintf("a path under %s does not count it", lc.event)
			} else if cnt != "" && cnt != mine {
				bad = fmt.Sprintf("%s is counted in two counters", lc.event)
			}
			cnt = mine
		}
		if len(h.out) == 0 && bad == "" {
			bad = "no path"
		}
		for e2, c2 := range counter {
			if c2 == cnt && cnt != "" && bad == "" {
				bad = fmt.Sprintf("%s and %s share the counter %s", lc.event, e2, cnt[2:])
			}
		}
		counter[lc.event] = cnt
		c.Cond(bad == "", "counts-once", key+" "+lc.event, pos, bad)

		// the decision, over the orderings of new count and limit
		if badL == "" {
			for _, pt := range h.out {
				if msg := c.decide(pt, lc, spec, bounds[lc.param], mutable, amount, cnt); msg != "" {
					badL = msg
				}
			}
		}
		c.Cond(badL == "", "limit-decides", key+" "+lc.event, pos, badL)
	}
	// all other events leave the counters alone
	for _, e := range append(append([]string{}, evs...), "type:other") {
		if isCount[e] || e == spec.start {
			continue
		}
		h := p.simHandler(f, e)
		bad := h.failed
		for _, pt := range h.out {
			var tot, old *lin = linK(0), linK(0)
			ok := true
			ch := false
			for _, m := range mut {
				if !unchanged(pt, m) {
					ch = true
				}
				v, has := pt.fields[m]
				if !has {
					v = hval{kind: "lin", l: linVar(m)}
				}
				if v.kind != "lin" {
					ok = false
					continue
				}
				tot = tot.add(v.l, 1)
				old = old.add(linVar(m), 1)
			}
			if !ch {
				continue
			}
			if !spec.moves[e] {
				bad = "the state of the handler changes under event." + e + ", which it does not count"
				continue
			}
			// a move keeps the total or drops what is not yet committed
			if !ok {
				bad = "a count becomes unknown under event." + e
				continue
			}
			if e == "ModelEnumerationCommit" && tot.String() != old.String() {
				bad = "a commit changes the total number of found models"
			}
			if e == "ModelEnumerationRollback" {
				z := 0
				for _, m := range mut {
					if zeroed(pt, m) && m == counter[spec.counts[0].event] {
						z++
					} else if !unchanged(pt, m) {
						z = -10
					}
				}
				if z != 1 {
					bad = "a rollback does not drop exactly the uncommitted models"
				}
			}
		}
		if spec.moves[e] && bad == "" {
			moved := false
			for _, pt := range h.out {
				if zeroed(pt, counter[spec.counts[0].event]) {
					moved = true
				} else {
					moved = false
					break
				}
			}
			if !moved {
				bad = "the uncommitted count is not cleared under event." + e
			}
		}
		c.Cond(bad == "", "counts-once", key+" other:"+e, pos, bad)
	}
}

func (h hval) lvars() map[string]bool {
	m := map[string]bool{}
	if h.l != nil {
		for v := range h.l.c {
			m[v] = true
		}
	}
	if h.kind == "fld" {
		m[h.n] = true
	}
	return m
}

// decide evaluates one path of a counted event for every ordering of the new
// total and the limit.
func (c *Ctx) decide(pt hpath, lc limitCount, spec *limitSpec, bound string, mutable map[string]bool, amount *lin, cnt string) string {
	// D = total' - bound
	total := linK(0)
	for m := range mutable {
		if m == cnt || len(spec.counts) == 1 {
			if v, ok := pt.fields[m]; ok {
				if v.kind == "lin" {
					total = total.add(v.l, 1)
				}
			} else if !isBoolField(c.P, spec, m) {
				total = total.add(linVar(m), 1)
			}
		}
	}
	D := total.add(linVar(bound), -1)
	neg := linK(0).add(D, -1)
	val := func(l *lin, d, b int64) (int64, bool) { // value of an affine form under the ordering
		switch {
		case l.shape() == D.shape():
			return d + l.k - D.k, true
		case l.shape() == neg.shape():
			return -d + l.k - neg.k, true
		case l.shape() == linVar(bound).shape():
			return b + l.k, true
		case l.shape() == linK(0).add(linVar(bound), -1).shape():
			return -b + l.k, true
		}
		return 0, false
	}
	for d := int64(-3); d <= 3; d++ {
		for _, b := range []int64{50, 1, 0, -1} {
			unlimited := b == -1
			if unlimited && !lc.minus1 || d+b < 0 {
				continue
			}
			feasible := true
			stale := false
			for _, k := range pt.cons {
				if k.fld != "" {
					if k.want { // already cancelled: the computation has ended
						feasible = false
					}
					continue
				}
				x, ok := val(k.l, d, b)
				if !ok {
					stale = true
					continue
				}
				if holds(x, k.op) != k.want {
					feasible = false
				}
			}
			if !feasible {
				continue
			}
			want := d < 0 || d == 0 && !lc.atLimit || unlimited
			switch pt.ret.kind {
			case "bool":
				if pt.ret.b != want {
					return fmt.Sprintf("when the new count minus the limit is %d (unlimited: %v) the handler answers %v", d, unlimited, pt.ret.b)
				}
				_ = stale
			case "atom":
				x, ok := val(pt.ret.l, d, b)
				if !ok {
					return "the answer does not compare the new count with the limit: " + pt.ret.String()
				}
				if (holds(x, pt.ret.op) == pt.ret.b) != want {
					return fmt.Sprintf("when the new count minus the limit is %d (unlimited: %v) the handler answers %v", d, unlimited, !want)
				}
			case "fld":
				return "the answer is the one of an earlier event"
			default:
				return "the answer cannot be related to the count and the limit"
			}
		}
	}
	return ""
}

func isBoolField(p *Program, spec *limitSpec, m string) bool {
	s := structOf(p.Type(spec.pkg, spec.typ))
	for i := 0; i < s.NumFields(); i++ {
		if "f:"+s.Field(i).Name() == m {
			return isBool(s.Field(i).Type())
		}
	}
	return false
}

// ctorBounds: which field holds the i-th parameter of the constructor.
func (p *Program) ctorBounds(spec *limitSpec) ([]string, string) {
	f := p.Func(spec.pkg, spec.ctor)
	if f == nil {
		return nil, "the constructor " + spec.pkg + "." + spec.ctor + " cannot be found"
	}
	out := make([]string, len(f.Params))
	rt := p.Type(spec.pkg, spec.typ)
	why := ""
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !types.Identical(deref(fa.X.Type()), rt) {
				continue
			}
			fn := "f:" + fieldName(rt, fa.Field)
			if pr, ok := st.Val.(*ssa.Parameter); ok {
				for i, q := range f.Params {
					if q == pr {
						out[i] = fn
					}
				}
				continue
			}
			if cst, ok := st.Val.(*ssa.Const); ok && cst.Value != nil {
				if cst.Value.Kind() == constant.Bool && !constant.BoolVal(cst.Value) {
					continue
				}
				if k, ok := constant.Int64Val(cst.Value); ok && cst.Value.Kind() == constant.Int && k == 0 {
					continue
				}
			}
			why = "the constructor starts with a non-zero " + fn[2:]
		}
	}
	for i, o := range out {
		if o == "" && why == "" {
			why = fmt.Sprintf("parameter %d of the constructor is not kept as the limit", i)
		}
	}
	for _, lc := range spec.counts {
		if lc.param >= len(out) {
			return nil, "the constructor has fewer parameters than limits"
		}
	}
	return out, why
}
