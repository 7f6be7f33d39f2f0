package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C17"] = checkC17 }

// checkC17: a literal on a solver is the literal it was made from.  The
// numbers of the solvers are of different kinds (variable index, literal,
// decision level, literal of a proof), and truth values of literals come as
// phase (true: positive) or as sign (true: negative).  The kinds are inferred
// by unification over the whole code of the solvers: a number that would have
// to be of two kinds, or a boolean that would have to be phase and sign, is a
// confusion.
func checkC17(c *Ctx) {
	c.Rule("index", "a table of a solver is addressed by numbers of one kind only: by variables, by literals, by levels or by positions", 100)
	c.Rule("number", "a number of one kind (variable, literal, level, proof literal) is never passed, compared, stored or returned as one of another kind", 300)
	c.Rule("phase", "the phase of a literal is never taken for its sign or the other way round, on the way into a solver, inside, or out of it", 20)
	c.Rule("made-from", "the solver literal of a formula literal is the even one exactly under a positive phase", 6)
	c.Rule("two-way", "the tables name to number and number to name are updated together, with the same pair", 3)
	if c.fixture {
		return
	}
	k := &kinds{p: c.P, c: c, val: map[ssa.Value]*kn{}, fld: map[string]*kn{}, res: map[string]*kn{}, glob: map[string]*kn{}}
	k.run()
}

// kn is a node of the unification: a value and what can be reached from it.
type kn struct {
	up   *kn
	flip bool // this node is the negation of up (booleans)
	kind string
	neg  bool // kind "phase": the value is the negation of the phase, i.e. the sign
	why  string
	elem *kn // elements of a slice, array or map, of what a pointer points to
	idx  *kn // the index or key
	n    int
}

func (n *kn) find() (*kn, bool) {
	f := false
	for n.up != nil {
		f = f != n.flip
		n = n.up
	}
	return n, f
}

type kinds struct {
	p    *Program
	c    *Ctx
	val  map[ssa.Value]*kn
	fld  map[string]*kn
	res  map[string]*kn
	glob map[string]*kn
	cons []consK
	mute bool
	fns  []*ssa.Function
}

// consK is a constraint: a and b are of the same kind (b negated with flip).
type consK struct {
	a, b *kn
	flip bool
	in   ssa.Instruction
	f    *ssa.Function
	what string
	rule string
}

func (k *kinds) node(v ssa.Value) *kn {
	switch v.(type) {
	case *ssa.Const, *ssa.Builtin, *ssa.Function:
		return &kn{}
	}
	if g, ok := v.(*ssa.Global); ok {
		if k.glob[g.String()] == nil {
			k.glob[g.String()] = &kn{}
		}
		return k.glob[g.String()]
	}
	n := k.val[v]
	if n == nil {
		n = &kn{}
		k.val[v] = n
	}
	return n
}

func (k *kinds) field(key string) *kn {
	n := k.fld[key]
	if n == nil {
		n = &kn{}
		k.fld[key] = n
	}
	return n
}

func (k *kinds) result(f *ssa.Function, i int) *kn {
	key := fmt.Sprintf("%s#%d", f.String(), i)
	n := k.res[key]
	if n == nil {
		n = &kn{}
		k.res[key] = n
	}
	return n
}

func elemN(n *kn) *kn {
	r, _ := n.find()
	if r.elem == nil {
		r.elem = &kn{}
	}
	return r.elem
}

func idxN(n *kn) *kn {
	r, _ := n.find()
	if r.idx == nil {
		r.idx = &kn{}
	}
	return r.idx
}

// unify makes a and b (negated with flip) one; it reports the conflict.
func (k *kinds) unify(a, b *kn, flip bool, why string) (string, string) {
	ra, fa := a.find()
	rb, fb := b.find()
	fl := fa != fb != flip
	if ra == rb {
		if fl && ra.kind == "phase" {
			return "phase", ra.why
		}
		return "", ""
	}
	if ra.kind != "" && rb.kind != "" {
		if ra.kind != rb.kind {
			return ra.kind + "/" + rb.kind, ra.why + "; " + rb.why
		}
		if ra.kind == "phase" && (ra.neg != rb.neg) != fl {
			return "phase", ra.why + "; " + rb.why
		}
	}
	if ra.n < rb.n {
		ra, rb = rb, ra
	}
	rb.up, rb.flip = ra, fl
	ra.n += rb.n + 1
	if ra.kind == "" && rb.kind != "" {
		ra.kind, ra.neg, ra.why = rb.kind, rb.neg != fl, rb.why
	}
	var x, y string
	if rb.elem != nil {
		if ra.elem == nil {
			ra.elem = rb.elem
		} else {
			x, y = k.unify(ra.elem, rb.elem, false, why)
		}
	}
	if rb.idx != nil {
		if ra.idx == nil {
			ra.idx = rb.idx
		} else if x1, y1 := k.unify(ra.idx, rb.idx, false, why); x1 != "" && x == "" {
			x, y = x1, y1
		}
	}
	return x, y
}

func (k *kinds) seed(n *kn, kind string, neg bool, why string) {
	r, f := n.find()
	if r.kind == "" {
		r.kind, r.neg, r.why = kind, neg != f, why
		return
	}
	if r.kind != kind || kind == "phase" && (r.neg != f) != neg {
		k.c.Bad("number", "seed "+why, "", "the kinds of "+why+" and "+r.why+" are one")
	}
}

func (k *kinds) add(a, b *kn, flip bool, in ssa.Instruction, rule, what string) {
	k.cons = append(k.cons, consK{a, b, flip, in, in.Parent(), what, rule})
}

// in the solvers numbers are int32, booleans bool.
func (k *kinds) scope(f *ssa.Function) bool {
	switch shortPkg(pkgOf(f)) {
	case "sat", "maxsat", "dnnf":
	default:
		return false
	}
	if f.Signature.Recv() != nil && strings.Contains(f.Signature.Recv().Type().String(), "drupSolver") {
		return false
	}
	return f.Blocks != nil
}

// generic functions and the small helpers on slices work for every kind.
func polymorphic(f *ssa.Function) bool {
	return f.Origin() != nil || len(f.TypeArgs()) > 0
}

func (k *kinds) run() {
	p := k.p
	for _, f := range p.Funcs {
		if k.scope(f) && f.Synthetic == "" {
			k.fns = append(k.fns, f)
		}
	}
	if len(k.fns) == 0 {
		return
	}
	k.seeds()
	for _, f := range k.fns {
		if !polymorphic(f) {
			k.fn(f)
		}
	}
	k.arms(false)
	k.solve()
	k.arms(true)
	k.madeFrom()
	k.twoWay()
}

// seeds: what the public names and the fields of the core say.
func (k *kinds) seeds() {
	p := k.p
	fn := func(name string) *ssa.Function { return p.Func("sat", name) }
	par := func(f *ssa.Function, i int) *kn { return k.node(f.Params[i]) }
	if f := fn("MkLit"); f != nil {
		k.seed(par(f, 0), "variable", false, "MkLit(variable, …)")
		k.seed(par(f, 1), "phase", true, "MkLit(…, sign)")
		k.seed(k.result(f, 0), "literal", false, "the literal made by MkLit")
	}
	if f := fn("Not"); f != nil {
		k.seed(par(f, 0), "literal", false, "Not(literal)")
		k.seed(k.result(f, 0), "literal", false, "the literal made by Not")
	}
	if f := fn("Sign"); f != nil {
		k.seed(par(f, 0), "literal", false, "Sign(literal)")
		k.seed(k.result(f, 0), "phase", true, "the sign of a literal")
	}
	if f := fn("Vari"); f != nil {
		k.seed(par(f, 0), "literal", false, "Vari(literal)")
		k.seed(k.result(f, 0), "variable", false, "the variable of a literal")
	}
	core := "sat.CoreSolver."
	for _, t := range []string{"vars", "seen", "model"} {
		k.seed(idxN(k.field(core+t)), "variable", false, "the index of the table "+t)
	}
	for _, t := range []string{"watches", "watchesBin"} {
		k.seed(idxN(k.field(core+t)), "literal", false, "the index of the table "+t)
	}
	k.seed(elemN(k.field(core+"name2idx")), "variable", false, "the number of a name")
	k.seed(idxN(k.field(core+"idx2name")), "variable", false, "the key of idx2name")
	k.seed(idxN(k.field(core+"trailLim")), "level", false, "the number of the levels")
	k.seed(k.field("sat.variable.level"), "level", false, "the level of a variable")
	k.seed(elemN(k.field(core+"trail")), "literal", false, "the trail")
	k.seed(elemN(k.field("sat.clause.data")), "literal", false, "the literals of a clause")
	k.seed(elemN(k.field("sat.proofInformation.clause")), "proof literal", false, "an original clause of the proof")
	k.seed(elemN(elemN(k.field(core+"pgProof"))), "proof literal", false, "a line of the proof")
	k.seed(elemN(k.field(core+"model")), "phase", false, "the model")
	k.seed(k.field("sat.Config.InitialPhase"), "phase", false, "the initial phase of a configuration")
}

// operations of package formula that speak about phases.
func (k *kinds) formulaCall(in ssa.CallInstruction) {
	cm := in.Common()
	var name, pkg string
	var sig *types.Signature
	if cm.IsInvoke() {
		name, pkg = cm.Method.Name(), ""
		if cm.Method.Pkg() != nil {
			pkg = cm.Method.Pkg().Name()
		}
		sig = cm.Method.Type().(*types.Signature)
	} else if g := cm.StaticCallee(); g != nil {
		name, pkg, sig = g.Name(), shortPkg(pkgOf(g)), g.Signature
	}
	if pkg != "formula" || sig == nil {
		return
	}
	call, _ := in.(*ssa.Call)
	switch name {
	case "LitNamePhase", "LiteralNamePhase":
		if call != nil {
			for _, r := range *call.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
					k.seedAt(k.node(e), "phase", false, in, "the phase of a formula literal")
				}
			}
		}
	case "IsPos", "IsNeg":
		if call != nil {
			k.seedAt(k.node(call), "phase", name == "IsNeg", in, "the phase of a formula literal")
		}
	case "Literal", "Lit":
		args := cm.Args
		if len(args) == 0 {
			return
		}
		last := args[len(args)-1]
		if b, ok := last.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			n := &kn{kind: "phase", why: "the phase of a formula literal that is made"}
			k.add(k.node(last), n, false, in, "phase", "the phase of a formula literal")
		}
	}
}

func (k *kinds) seedAt(n *kn, kind string, neg bool, in ssa.Instruction, why string) {
	k.add(n, &kn{kind: kind, neg: neg, why: why + " (" + k.p.pos(in.Pos()) + ")"}, false, in, "phase", why)
}

func trackedType(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Info()&types.IsInteger != 0 || t.Kind() == types.Bool
	case *types.Slice, *types.Array, *types.Map, *types.Pointer:
		return true
	case *types.Tuple:
		return true
	}
	return false
}

func ruleFor(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return "phase"
	}
	return "number"
}

// lenArg: v is the length of the returned value, in whatever integer type.
func lenArg(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return x.Call.Args[0]
			}
		}
		return nil
	}
}

func (k *kinds) fn(f *ssa.Function) {
	if f.Pkg != nil && f.Pkg.Pkg.Name() == "sat" && f.Signature.Recv() == nil {
		switch f.Name() {
		case "MkLit", "Not", "Sign", "Vari", "signAsInt":
			return
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			k.instr(f, in)
		}
	}
}

func (k *kinds) instr(f *ssa.Function, in ssa.Instruction) {
	same := func(a, b ssa.Value, what string) {
		if trackedType(a.Type()) {
			k.add(k.node(a), k.node(b), false, in, ruleFor(a.Type()), what)
		}
	}
	switch x := in.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			same(x, e, "values that come together")
		}
	case *ssa.Convert:
		if trackedType(x.X.Type()) && trackedType(x.Type()) {
			same(x, x.X, "a conversion")
		}
	case *ssa.ChangeType:
		same(x, x.X, "a conversion")
	case *ssa.Slice:
		k.add(k.node(x), k.node(x.X), false, in, "number", "a part of a slice")
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			same(x, x.X, "a value that is read")
		case token.NOT:
			k.add(k.node(x), k.node(x.X), true, in, "phase", "a negation")
		}
	case *ssa.Store:
		same(x.Addr, x.Val, "a value that is stored")
	case *ssa.FieldAddr:
		if key := fieldKey(x.X.Type(), x.Field); key != "" {
			k.add(k.node(x), k.field(key), false, in, "number", "a field")
		}
	case *ssa.Field:
		if key := fieldKey(x.X.Type(), x.Field); key != "" {
			k.add(k.node(x), k.field(key), false, in, "number", "a field")
		}
	case *ssa.IndexAddr:
		k.add(k.node(x), elemN(k.node(x.X)), false, in, "number", "an element")
		k.add(k.node(x.Index), idxN(k.node(x.X)), false, in, "index", "the index of "+k.table(x.X))
	case *ssa.Index:
		k.add(k.node(x), elemN(k.node(x.X)), false, in, "number", "an element")
		k.add(k.node(x.Index), idxN(k.node(x.X)), false, in, "index", "the index of "+k.table(x.X))
	case *ssa.Lookup:
		if isMapType(x.X.Type()) {
			n := k.node(x)
			if x.CommaOk {
				n = k.tuple(x, 0)
			}
			k.add(n, elemN(k.node(x.X)), false, in, "number", "an element")
			k.add(k.node(x.Index), idxN(k.node(x.X)), false, in, "index", "the key of "+k.table(x.X))
		}
	case *ssa.MapUpdate:
		k.add(k.node(x.Value), elemN(k.node(x.Map)), false, in, "number", "an element")
		k.add(k.node(x.Key), idxN(k.node(x.Map)), false, in, "index", "the key of "+k.table(x.Map))
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok && isMapType(r.X.Type()) {
				if x.Index == 1 {
					k.add(k.node(x), idxN(k.node(r.X)), false, in, "index", "the key of "+k.table(r.X))
				} else if x.Index == 2 {
					k.add(k.node(x), elemN(k.node(r.X)), false, in, "number", "an element")
				}
			}
		default:
			k.add(k.node(x), k.tuple(x.Tuple, x.Index), false, in, ruleFor(x.Type()), "a result")
		}
	case *ssa.BinOp:
		k.binop(x)
	case *ssa.Return:
		for i, r := range x.Results {
			if trackedType(r.Type()) {
				k.add(k.result(f, i), k.node(r), false, in, ruleFor(r.Type()), "the result of "+rel(f))
			}
		}
	case ssa.CallInstruction:
		k.call(f, x)
	}
}

func (k *kinds) tuple(v ssa.Value, i int) *kn {
	key := fmt.Sprintf("tuple %p %d", v, i)
	n := k.fld[key]
	if n == nil {
		n = &kn{}
		k.fld[key] = n
	}
	return n
}

func (k *kinds) table(v ssa.Value) string {
	if key, _ := valueFieldKey(v, 0); key != "" {
		return key
	}
	return "a " + types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() })
}

func (k *kinds) binop(x *ssa.BinOp) {
	lit := func(n *kn, kind, why string) {
		k.add(n, &kn{kind: kind, why: why + " (" + k.p.pos(x.Pos()) + ")"}, false, x, "number", why)
	}
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if ruleFor(x.X.Type()) == "phase" {
			return // two truth values are compared: the result says whether a literal holds
		}
		if !trackedType(x.X.Type()) || !isInteger(x.X.Type()) {
			return
		}
		// against a length: an index of that slice
		if s := lenArg(x.X); s != nil && x.Op != token.EQL && x.Op != token.NEQ {
			k.add(k.node(x.Y), idxN(k.node(s)), false, x, "index", "a bound of the index of "+k.table(s))
		}
		if s := lenArg(x.Y); s != nil && x.Op != token.EQL && x.Op != token.NEQ {
			k.add(k.node(x.X), idxN(k.node(s)), false, x, "index", "a bound of the index of "+k.table(s))
		}
		k.add(k.node(x.X), k.node(x.Y), false, x, "number", "a comparison")
	case token.ADD, token.SUB:
		// counting up or down: the loop variable and its next value
		if _, ok := intConst(x.Y); ok {
			for _, r := range *x.Referrers() {
				if ph, ok := r.(*ssa.Phi); ok {
					for _, e := range ph.Edges {
						if e == x && x.X == ph {
							k.add(k.node(x), k.node(x.X), false, x, "number", "counting")
						}
					}
				}
			}
		}
		if x.Op == token.ADD && x.X == x.Y && isInt32(x.Type()) {
			lit(k.node(x.X), "variable", "a variable whose literal is made")
			lit(k.node(x), "literal", "a literal made from a variable")
		}
	case token.MUL:
		a, b := x.X, x.Y
		if _, ok := intConst(a); ok {
			a, b = b, a
		}
		if n, ok := intConst(b); ok && n == 2 && isInt32(x.Type()) {
			lit(k.node(a), "variable", "a variable whose literal is made")
			lit(k.node(x), "literal", "a literal made from a variable")
		}
	case token.SHL:
		if n, ok := intConst(x.Y); ok && n == 1 && isInt32(x.Type()) {
			lit(k.node(x.X), "variable", "a variable whose literal is made")
			lit(k.node(x), "literal", "a literal made from a variable")
		}
	case token.SHR, token.QUO:
		n, ok := intConst(x.Y)
		if ok && (x.Op == token.SHR && n == 1 || x.Op == token.QUO && n == 2) && isInt32(x.Type()) {
			lit(k.node(x.X), "literal", "a literal whose variable is taken")
			lit(k.node(x), "variable", "the variable of a literal")
		}
	case token.XOR:
		if n, ok := intConst(x.Y); ok && n == 1 && isInt32(x.Type()) {
			lit(k.node(x.X), "literal", "a literal that is negated")
			lit(k.node(x), "literal", "the negation of a literal")
		}
	case token.AND:
		if n, ok := intConst(x.Y); ok && n == 1 && isInt32(x.Type()) {
			lit(k.node(x.X), "literal", "a literal whose sign is taken")
		}
	}
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (k *kinds) call(f *ssa.Function, ci ssa.CallInstruction) {
	cm := ci.Common()
	k.formulaCall(ci)
	call, _ := ci.(*ssa.Call)
	if b, ok := cm.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if call != nil {
				k.add(k.node(call), k.node(cm.Args[0]), false, ci, "number", "a slice that is appended to")
				if len(cm.Args) > 1 && !isString(cm.Args[1].Type()) {
					k.add(elemN(k.node(call)), elemN(k.node(cm.Args[1])), false, ci, "number", "appended elements")
				}
			}
		case "copy":
			k.add(elemN(k.node(cm.Args[0])), elemN(k.node(cm.Args[1])), false, ci, "number", "copied elements")
		case "delete":
			k.add(k.node(cm.Args[1]), idxN(k.node(cm.Args[0])), false, ci, "index", "the key of "+k.table(cm.Args[0]))
		case "len":
			if call != nil {
				k.add(k.node(call), idxN(k.node(cm.Args[0])), false, ci, "index", "the length of "+k.table(cm.Args[0]))
			}
		case "min", "max":
			if call != nil && len(cm.Args) > 0 && isInteger(call.Type()) {
				for _, a := range cm.Args {
					k.add(k.node(call), k.node(a), false, ci, "number", "a minimum or maximum")
				}
			}
		}
		return
	}
	var targets []*ssa.Function
	if g := cm.StaticCallee(); g != nil {
		targets = []*ssa.Function{g}
	} else {
		targets = k.p.Targets(cm)
	}
	for _, g := range targets {
		if polymorphic(g) || g.Blocks == nil || !inModule(g) || !k.scope(g) {
			if call != nil {
				k.generic(g, call)
			}
			continue
		}
		args := callArgs(cm, g)
		for i, a := range args {
			if i >= len(g.Params) || a == nil || !trackedType(a.Type()) {
				continue
			}
			k.add(k.node(a), k.node(g.Params[i]), false, ci, ruleFor(a.Type()), fmt.Sprintf("argument %d of %s", i+1-recvN(g), rel(g)))
		}
		if call != nil {
			res := g.Signature.Results()
			if res.Len() == 1 {
				if trackedType(res.At(0).Type()) {
					k.add(k.node(call), k.result(g, 0), false, ci, ruleFor(call.Type()), "the result of "+rel(g))
				}
			} else {
				for i := 0; i < res.Len(); i++ {
					if trackedType(res.At(i).Type()) {
						k.add(k.tuple(call, i), k.result(g, i), false, ci, ruleFor(res.At(i).Type()), "a result of "+rel(g))
					}
				}
			}
		}
	}
}

func recvN(g *ssa.Function) int {
	if g.Signature.Recv() != nil {
		return 1
	}
	return 0
}

// generic functions: what a slice of the library's helpers returns has the
// elements of its arguments.
func (k *kinds) generic(g *ssa.Function, call *ssa.Call) {
	o := g
	if g.Origin() != nil {
		o = g.Origin()
	}
	switch o.String() {
	case "slices.Clone", "slices.Grow", "slices.Clip":
		k.add(k.node(call), k.node(call.Call.Args[0]), false, call, "number", "a copy")
	case "slices.Contains", "slices.Index":
		k.add(k.node(call.Call.Args[1]), elemN(k.node(call.Call.Args[0])), false, call, "number", "an element looked for")
		if o.Name() == "Index" {
			k.add(k.node(call), idxN(k.node(call.Call.Args[0])), false, call, "index", "the index of "+k.table(call.Call.Args[0]))
		}
	}
}

func (k *kinds) solve() {
	type res struct{ x, y string }
	for _, c := range k.cons {
		x, y := k.unify(c.a, c.b, c.flip, "")
		ra, _ := c.a.find()
		_ = ra
		if x == "" {
			continue
		}
		rule := c.rule
		if x == "phase" {
			rule = "phase"
		} else if rule == "phase" {
			rule = "number"
		}
		key := rel(c.f) + " " + c.what
		msg := c.what + ": "
		if x == "phase" {
			msg += "a phase is taken for a sign (" + y + ")"
		} else {
			q := strings.SplitN(x, "/", 2)
			msg += "a " + q[0] + " is taken for a " + q[1] + " (" + y + ")"
		}
		k.c.Bad(rule, key, k.at(c.in), msg)
	}
	// what was decided: constraints between values of a kind
	for _, c := range k.cons {
		ra, _ := c.a.find()
		rb, _ := c.b.find()
		if ra.kind == "" && rb.kind == "" || ra != rb {
			continue
		}
		k.c.Ok(c.rule, rel(c.f)+" "+c.what+" : "+ra.kind, k.at(c.in))
	}
}

func (k *kinds) at(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return k.p.pos(in.Pos())
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && (*o).Pos().IsValid() {
			return k.p.pos((*o).Pos())
		}
	}
	return k.p.pos(in.Parent().Pos())
}

// arm: the conditions that hold in a block because it lies under an arm.
type arm struct {
	cond ssa.Value
	val  bool
	in   *ssa.If
}

func armsOf(b *ssa.BasicBlock) []arm {
	var out []arm
	for d := b.Idom(); d != nil; d = d.Idom() {
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, s := range d.Succs {
			if len(s.Preds) == 1 && (s == b || s.Dominates(b)) {
				out = append(out, arm{iff.Cond, i == 0, iff})
			}
		}
	}
	return out
}

// truth of a constant bool or Tristate.
func (k *kinds) truthConst(v ssa.Value) (bool, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false, false
	}
	if c.Value.Kind() == constant.Bool {
		return constant.BoolVal(c.Value), true
	}
	if isNamed(v.Type(), "formula", "Tristate") {
		switch k.p.enumName(v.Type(), c.Value.ExactString()) {
		case "TristateTrue":
			return true, true
		case "TristateFalse":
			return false, true
		}
	}
	return false, false
}

// arms: comparisons and choices of constants under a condition.
//   - `assignment == TristateTrue` is the phase of the variable,
//   - a boolean that is true under one arm of a condition and false under the
//     other is that condition.
func (k *kinds) arms(second bool) {
	if second {
		return
	}
	for _, f := range k.fns {
		if polymorphic(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.BinOp:
					if x.Op != token.EQL && x.Op != token.NEQ {
						continue
					}
					a, cst := x.X, x.Y
					t, ok := k.truthConst(cst)
					if !ok {
						a, cst = x.Y, x.X
						t, ok = k.truthConst(cst)
					}
					if !ok || !isNamed(a.Type(), "formula", "Tristate") {
						continue
					}
					if key, _ := valueFieldKey(a, 0); key == "sat.variable.assignment" {
						n := &kn{kind: "phase", why: "the assignment of a variable"}
						k.add(k.node(x), n, t != (x.Op == token.EQL), x, "phase", "the assignment of a variable")
					}
				case *ssa.Phi:
					k.phiArm(x)
				case *ssa.Call:
					// the assignment of a variable is made from its phase
					if g := x.Call.StaticCallee(); g != nil && g.Name() == "TristateFromBool" {
						for _, r := range *x.Referrers() {
							if st, ok := r.(*ssa.Store); ok {
								if key, _ := addrFieldKey(st.Addr, 0); key == "sat.variable.assignment" {
									n := &kn{kind: "phase", why: "the assignment of a variable"}
									k.add(k.node(x.Call.Args[0]), n, false, x, "phase", "the assignment of a variable")
								}
							}
						}
					}
				}
			}
		}
	}
}

// phiArm: x is true where a condition held and false where it did not.
func (k *kinds) phiArm(x *ssa.Phi) {
	if len(x.Edges) != 2 {
		return
	}
	t0, ok0 := k.truthConst(x.Edges[0])
	t1, ok1 := k.truthConst(x.Edges[1])
	if !ok0 || !ok1 || t0 == t1 || ruleFor(x.Type()) != "phase" {
		return
	}
	d := x.Block().Idom()
	if d == nil {
		return
	}
	iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	side := func(p *ssa.BasicBlock) (bool, bool) {
		for i, s := range d.Succs {
			if s == x.Block() && p == d {
				return i == 0, true
			}
			if len(s.Preds) == 1 && (s == p || s.Dominates(p)) {
				return i == 0, true
			}
		}
		return false, false
	}
	s0, k0 := side(x.Block().Preds[0])
	s1, k1 := side(x.Block().Preds[1])
	if !k0 || !k1 || s0 == s1 {
		return
	}
	k.add(k.node(x), k.node(iff.Cond), t0 != s0, x, "phase", "a value chosen by a condition")
}

func (k *kinds) kindOf(v ssa.Value) (string, bool) {
	n, ok := k.val[v]
	if !ok {
		return "", false
	}
	r, f := n.find()
	return r.kind, r.neg != f
}

// evenLiteral: v is the positive literal of a variable: 2*x or MkLit(x, false).
func (k *kinds) evenLiteral(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		if !isInt32(x.Type()) {
			return false
		}
		switch x.Op {
		case token.MUL:
			n, ok := intConst(x.Y)
			m, ok2 := intConst(x.X)
			return ok && n == 2 || ok2 && m == 2
		case token.SHL:
			n, ok := intConst(x.Y)
			return ok && n == 1
		case token.ADD:
			return x.X == x.Y
		}
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g != nil && g.Name() == "MkLit" && shortPkg(pkgOf(g)) == "sat" {
			t, ok := k.truthConst(x.Call.Args[1])
			return ok && !t
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !k.evenLiteral(e) {
				return false
			}
		}
		return len(x.Edges) > 0
	}
	return false
}

// madeFrom: a fresh positive literal of a variable is negated under the sign
// of a formula literal, and a literal is the positive one under its phase.
func (k *kinds) madeFrom() {
	for _, f := range k.fns {
		if polymorphic(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				var from ssa.Value
				odd := false
				switch x := in.(type) {
				case *ssa.BinOp:
					if x.Op == token.XOR || x.Op == token.OR || x.Op == token.ADD {
						if n, ok := intConst(x.Y); ok && n == 1 && k.evenLiteral(x.X) {
							from, odd = x.X, true
						}
					}
				case *ssa.Call:
					g := x.Call.StaticCallee()
					if g != nil && shortPkg(pkgOf(g)) == "sat" {
						switch g.Name() {
						case "Not":
							if k.evenLiteral(x.Call.Args[0]) {
								from, odd = x.Call.Args[0], true
							}
						case "MkLit":
							if t, ok := k.truthConst(x.Call.Args[1]); ok && t {
								from, odd = x, true
							}
						}
					}
				}
				if from == nil && k.evenLiteral(v) {
					if _, ok := v.(*ssa.Phi); !ok {
						from = v
					}
				}
				if from == nil {
					continue
				}
				if !odd && k.onlyNegated(v) {
					continue
				}
				for _, a := range armsOf(b) {
					kind, neg := k.kindOf(a.cond)
					if kind != "phase" {
						continue
					}
					positive := a.val != neg // under this arm the literal is positive
					k.c.Cond(positive != odd, "made-from", rel(f)+" "+map[bool]string{true: "negative", false: "positive"}[odd]+" literal", k.at(in),
						"under a "+map[bool]string{true: "positive", false: "negative"}[positive]+" phase the "+map[bool]string{true: "negative", false: "positive"}[odd]+" literal of the variable is made")
					break
				}
			}
		}
	}
}

// onlyNegated: the positive literal is made only to be negated.
func (k *kinds) onlyNegated(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil || len(*refs) == 0 {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			n, ok := intConst(x.Y)
			if !ok || n != 1 || x.Op != token.XOR && x.Op != token.OR && x.Op != token.ADD {
				return false
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g == nil || g.Name() != "Not" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// twoWay: the tables from a name to its number and back.
func (k *kinds) twoWay() {
	pairs := [][2]string{{"sat.CoreSolver.name2idx", "sat.CoreSolver.idx2name"}, {"maxsat.maxSatAlgorithm.var2index", "maxsat.maxSatAlgorithm.index2var"}}
	for _, pr := range pairs {
		for _, f := range k.fns {
			var up [2][]*ssa.MapUpdate
			var del [2][]ssa.CallInstruction
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.MapUpdate:
						if key, el := valueFieldKey(x.Map, 0); key != "" && !el {
							for i := range pr {
								if key == pr[i] {
									up[i] = append(up[i], x)
								}
							}
						}
					case ssa.CallInstruction:
						if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
							if key, el := valueFieldKey(x.Common().Args[0], 0); key != "" && !el {
								for i := range pr {
									if key == pr[i] {
										del[i] = append(del[i], x)
									}
								}
							}
						}
					}
				}
			}
			for i := range pr {
				for _, a := range up[i] {
					ok := false
					for _, b := range up[1-i] {
						if sameVal(a.Key, b.Value) && sameVal(a.Value, b.Key) && together(a, b) {
							ok = true
						}
					}
					k.c.Cond(ok, "two-way", rel(f)+" "+pr[i], k.at(a), "an entry of "+pr[i]+" is not accompanied by the opposite entry of "+pr[1-i])
				}
				for _, a := range del[i] {
					ok := false
					for _, b := range del[1-i] {
						if together(a.(ssa.Instruction), b.(ssa.Instruction)) {
							ok = true
						}
					}
					k.c.Cond(ok, "two-way", rel(f)+" delete "+pr[i], k.at(a.(ssa.Instruction)), "an entry of "+pr[i]+" is removed, that of "+pr[1-i]+" is not")
				}
			}
		}
	}
}

func sameVal(a, b ssa.Value) bool {
	return a == b
}

// together: whenever the one is done the other is.
func together(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return true
	}
	for _, l := range [][2]ssa.Instruction{{a, b}, {b, a}} {
		if l[0].Block().Dominates(l[1].Block()) && postDominated(l[0].Block(), l[1].Block()) {
			return true
		}
	}
	return false
}

// postDominated: every path from a leaves through b.
func postDominated(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{b: true}
	work := []*ssa.BasicBlock{a}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if len(x.Succs) == 0 {
			return false
		}
		work = append(work, x.Succs...)
	}
	return true
}

var _ = sort.Strings

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
