package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C07"] = checkC07 }

// cmps is the meaning of the comparators.
var cmps = map[string]func(a, b int) bool{
	"EQ": func(a, b int) bool { return a == b },
	"LE": func(a, b int) bool { return a <= b },
	"LT": func(a, b int) bool { return a < b },
	"GE": func(a, b int) bool { return a >= b },
	"GT": func(a, b int) bool { return a > b },
}
var cmpNames = []string{"EQ", "LE", "LT", "GE", "GT"}

func checkC07(c *Ctx) {
	c.Rule("compare", "a comparison of a left-hand side with a right-hand side answers what the comparator says, for every ordering of the two", 12)
	c.Rule("trivial", "a constraint without literals is the constant that the comparator gives for 0 and the right-hand side", 20)
	c.Rule("fixed-part", "restricting or substituting keeps the comparator, moves exactly the fixed part to the right-hand side, and decides the constraint only if every value of the open part gives that answer", 20)
	c.Rule("encode", "the encoding chosen for a comparator and bound is the at-most, at-least or exactly-k encoding of that bound, and the trivial bounds give the clauses they stand for", 60)
	c.Rule("native", "a native at-most clause is used only with the bound, and the extra clause, that the comparator means", 12)
	c.Rule("normalize", "normalizing keeps or negates all coefficients and the right-hand side as the comparator requires, on the literals of the constraint", 5)
	c.Rule("negate", "the negation of a constraint holds exactly where the constraint does not", 5)
	c.Rule("notation", "the printer writes each comparator with its symbol and the parser reads that symbol as the same comparator", 10)
	c.Rule("amo-exo", "only constraints that mean at most one or exactly one are expanded as such", 8)
	if c.fixture {
		return
	}
	k := &cmpCheck{c: c, p: c.P, val: enumValues(c.P, "formula", "CSort"), sums: map[ssa.Value]string{}}
	if len(k.val) != 5 {
		c.Bad("compare", "CSort", "", fmt.Sprintf("expected the five comparators, found %d constants of type formula.CSort", len(k.val)))
		return
	}
	k.compare()
	k.trivial()
	k.evalFormula()
	k.fixedPart()
	k.contributions()
	k.encode()
	k.native()
	k.normalize()
	k.negate()
	k.notation()
	k.amoExo()
}

type cmpCheck struct {
	c    *Ctx
	p    *Program
	val  map[string]int64
	open int // obligations that could not be decided
	sums map[ssa.Value]string
}

func isCSort(t types.Type) bool { return isNamed(t, "formula", "CSort") && !isPtr(t) }

func (k *cmpCheck) cmp(n string) cval { return cInt(int(k.val[n])) }

// pbcOps recognises the operands of a constraint that are read from a factory.
func pbcOps(v ssa.Value) (int, bool) {
	e, ok := v.(*ssa.Extract)
	if !ok {
		return 0, false
	}
	if !callTo(e.Tuple, "formula", "PBCOps") {
		return 0, false
	}
	return e.Index, true
}

// fixOps: the constraint read from the factory has comparator n, the given
// right-hand side, and size literals.
func (k *cmpCheck) fixOps(n string, rhs int) func(v ssa.Value) (cval, bool) {
	return func(v ssa.Value) (cval, bool) {
		if i, ok := pbcOps(v); ok {
			switch i {
			case 0:
				return k.cmp(n), true
			case 1:
				return cInt(rhs), true
			case 2:
				return cval{sym: "lits"}, true
			case 3:
				return cval{sym: "coefs"}, true
			case 4:
				return cval{v: constant.MakeBool(true)}, true
			}
		}
		return cval{}, false
	}
}

// litOps: values derived from the literals.
func litOps(size int) func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
	return func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
		var call *ssa.Call
		idx := -1
		switch x := v.(type) {
		case *ssa.Call:
			call = x
		case *ssa.Extract:
			call, _ = x.Tuple.(*ssa.Call)
			idx = x.Index
		}
		if call == nil {
			return cval{}, false
		}
		if b, ok := call.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "len" && size >= 0 {
				if s := get(call.Call.Args[0]).sym; s == "lits" || s == "coefs" {
					return cInt(size), true
				}
			}
			return cval{}, false
		}
		name := baseName(&call.Call)
		var recv ssa.Value
		if call.Call.IsInvoke() {
			recv = call.Call.Value
		} else if len(call.Call.Args) > 0 {
			recv = call.Call.Args[0]
		}
		if recv == nil {
			return cval{}, false
		}
		s := get(recv).sym
		if s == "" {
			return cval{}, false
		}
		switch name {
		case "LiteralsAsVariables", "VariablesAsLiterals", "AsLiteral", "AsVariable", "AsFormula", "Variable":
			if idx <= 0 {
				return cval{sym: s}, true
			}
			return cval{nil_: true}, true
		case "Negate":
			if strings.HasPrefix(s, "~") {
				return cval{sym: s[1:]}, true
			}
			return cval{sym: "~" + s}, true
		}
		return cval{}, false
	}
}

func baseName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if g := staticCallee(c); g != nil {
		return g.Name()
	}
	return ""
}

type cmpSample struct {
	n string
	r int
}

// cmpSamples: each comparator with representatives of the right-hand sides
// (the numbers around 0 and 1 one by one).
func cmpSamples() []cmpSample {
	var out []cmpSample
	for _, n := range cmpNames {
		for _, r := range []int{-50, -2, -1, 0, 1, 2, 50} {
			out = append(out, cmpSample{n, r})
		}
	}
	return out
}

// ---- comparing two numbers ----

// compare: functions of a comparator and two numbers.
func (k *cmpCheck) compare() {
	found := map[*ssa.Function]bool{}
	for _, f := range k.p.Funcs {
		sg := f.Signature
		if sg.Results().Len() != 1 || len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		res := sg.Results().At(0).Type()
		if !isBoolT(res) {
			continue
		}
		ci, ints, other := -1, []int{}, 0
		for i, p := range f.Params {
			switch {
			case isCSort(p.Type()):
				ci = i
			case types.Identical(p.Type(), types.Typ[types.Int]):
				ints = append(ints, i)
			default:
				other++
			}
		}
		if ci < 0 || len(ints) != 2 || other != 0 {
			continue
		}
		lhs, rhs, ok := k.roles(f, ints)
		if !ok {
			continue
		}
		found[f] = true
		for _, n := range cmpNames {
			good, bad, why := 0, false, ""
			for _, R := range []int{-50, -1, 0, 1, 50} {
				for _, d := range []int{-2, -1, 0, 1, 2} {
					args := make([]cval, len(f.Params))
					args[ci], args[lhs], args[rhs] = k.cmp(n), cInt(R+d), cInt(R)
					r := (&sccp{p: k.p}).Run(f, args)
					if len(r.Results) != 1 || r.Results[0].v == nil {
						continue
					}
					good++
					if constant.BoolVal(r.Results[0].v) != cmps[n](R+d, R) {
						bad, why = true, fmt.Sprintf("%s with a left-hand side %s the right-hand side %d yields %v", n, ordWord(d), R, r.Results[0].v)
					}
				}
			}
			if good > 0 {
				k.c.Cond(!bad, "compare", rel(f)+" "+n, k.p.pos(f.Pos()), why)
			}
		}
	}
	if f := k.p.Func("formula", "CSort.Evaluate"); f == nil || !found[f] {
		k.c.Bad("compare", "CSort.Evaluate", "", "the exported comparison CSort.Evaluate(lhs, rhs) was not found")
	}
}

func ordWord(d int) string {
	switch {
	case d < -1:
		return "far below"
	case d == -1:
		return "just below"
	case d == 0:
		return "equal to"
	case d == 1:
		return "just above"
	}
	return "far above"
}

// roles: which of two int parameters is the left-hand and which the
// right-hand side: by what the call sites pass, else by name.
func (k *cmpCheck) roles(f *ssa.Function, ints []int) (lhs, rhs int, ok bool) {
	is := func(i int, w string) bool {
		return strings.Contains(strings.ToLower(f.Params[i].Name()), w)
	}
	for _, o := range [][2]int{{ints[0], ints[1]}, {ints[1], ints[0]}} {
		if is(o[1], "rhs") || is(o[0], "lhs") {
			lhs, rhs, ok = o[0], o[1], true
		}
	}
	seen := map[int]bool{}
	for _, s := range k.p.caller[f] {
		if s.ins == nil {
			continue
		}
		for _, i := range ints {
			if i < len(s.ins.Common().Args) {
				if j, is := pbcOps(s.ins.Common().Args[i]); is && j == 1 {
					seen[i] = true
				}
			}
		}
	}
	if len(seen) == 1 {
		for i := range seen {
			rhs = i
			lhs = ints[0] + ints[1] - i
			ok = true
		}
	}
	return
}

// trivial: constraints without literals.
func (k *cmpCheck) trivial() {
	for _, e := range []struct{ typ, name string }{{"CachingFactory", "PBC"}, {"CachingFactory", "CC"}} {
		f := k.p.Func("formula", e.typ+"."+e.name)
		if f == nil {
			continue
		}
		ci, ri := -1, -1
		for i, p := range f.Params {
			if isCSort(p.Type()) {
				ci = i
			} else if b, ok := p.Type().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				ri = i
			}
		}
		if ci < 0 || ri < 0 {
			continue
		}
		for _, n := range cmpNames {
			for _, rhs := range []int{-2, -1, 0, 1, 2} {
				if e.name == "CC" && rhs < 0 {
					continue
				}
				args := make([]cval, len(f.Params))
				args[ci], args[ri] = k.cmp(n), cInt(rhs)
				for i, p := range f.Params {
					if _, ok := p.Type().Underlying().(*types.Slice); ok {
						args[i] = cval{sym: "lits"}
					}
				}
				got := map[string]bool{}
				w := &reachWalk{s: &sccp{p: k.p, FixG: litOps(0)}}
				w.on = func(g *ssa.Function, ci ssa.CallInstruction, as []cval, r *sccpResult) bool {
					switch baseName(ci.Common()) {
					case "Constant":
						a := as[len(as)-1]
						if a.v != nil && a.v.Kind() == constant.Bool {
							got[fmt.Sprint(constant.BoolVal(a.v))] = true
						} else {
							got["?"] = true
						}
						return false
					case "Verum":
						got["true"] = true
						return false
					case "Falsum":
						got["false"] = true
						return false
					}
					h := staticCallee(ci.Common())
					return h != nil && pkgOf(h) != nil && shortPkg(pkgOf(h)) == "formula"
				}
				w.Run(f, args, 3)
				if got["?"] || len(got) == 0 {
					k.open++
					continue
				}
				want := fmt.Sprint(cmps[n](0, rhs))
				k.c.Cond(len(got) == 1 && got[want], "trivial", fmt.Sprintf("%s %s %d", e.name, n, rhs), k.p.pos(f.Pos()),
					fmt.Sprintf("0 %s %d is %s, but without literals the result can be %s", n, rhs, want, keys(got)))
			}
		}
	}
}

// ---- evaluating, restricting, substituting ----

// sumKind classifies a running sum of coefficients in a loop: "pos" (only
// positive coefficients are added), "neg" (only the others), "sum".
func (k *cmpCheck) sumKind(v ssa.Value) string {
	if _, ok := v.(*ssa.Phi); !ok {
		return ""
	}
	if s, ok := k.sums[v]; ok {
		return s
	}
	s := k.sumKind1(v)
	k.sums[v] = s
	return s
}

func (k *cmpCheck) sumKind1(v ssa.Value) string {
	ph, ok := v.(*ssa.Phi)
	if !ok || !types.Identical(ph.Type(), types.Typ[types.Int]) {
		return ""
	}
	kind := ""
	seen := map[ssa.Value]bool{}
	var back func(v ssa.Value, d int) bool // v leads to ph again
	merge := func(s string) {
		if kind == "" {
			kind = s
		} else if kind != s {
			kind = "sum"
		}
	}
	back = func(v ssa.Value, d int) bool {
		if v == ph {
			return true
		}
		if d > 8 || seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			r := false
			for _, e := range x.Edges {
				if back(e, d+1) {
					r = true
				}
			}
			return r
		case *ssa.BinOp:
			if x.Op != token.ADD {
				return false
			}
			for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if k.isCoef(o[1], 0) && back(o[0], d+1) {
					merge(coefSign(o[1], x.Block()))
					return true
				}
			}
		}
		return false
	}
	inLoop := false
	for _, e := range ph.Edges {
		if e != ph && back(e, 0) {
			inLoop = true
		}
	}
	if !inLoop {
		return ""
	}
	return kind
}

// isCoef: an element of the coefficients of a constraint.
func (k *cmpCheck) isCoef(v ssa.Value, d int) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	return k.isOps(ia.X, 3, 0)
}

// isOps: a slice that is operand i of the constraint.
func (k *cmpCheck) isOps(v ssa.Value, i int, d int) bool {
	if d > 4 {
		return false
	}
	if j, ok := pbcOps(v); ok {
		return j == i
	}
	if pr, ok := v.(*ssa.Parameter); ok {
		f := pr.Parent()
		at := -1
		for n, q := range f.Params {
			if q == pr {
				at = n
			}
		}
		n := 0
		for _, s := range k.p.caller[f] {
			if s.ins == nil || at >= len(s.ins.Common().Args) || !k.isOps(s.ins.Common().Args[at], i, d+1) {
				return false
			}
			n++
		}
		return n > 0
	}
	return false
}

// coefSign: the condition on the sign of the coefficient under which block b
// runs.
func coefSign(coef ssa.Value, b *ssa.BasicBlock) string {
	same := func(v ssa.Value) bool {
		if v == coef {
			return true
		}
		return canonVal(v) == canonVal(coef) && canonVal(v) != ""
	}
	for d := b; d != nil && d.Idom() != nil; d = d.Idom() {
		p := d.Idom()
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 || d.Preds[0] != p {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op := bo.Op
		x, y := bo.X, bo.Y
		if n, ok := intConst(x); ok && n == 0 {
			x, y, op = y, x, flip(op)
		}
		if n, ok := intConst(y); !ok || n != 0 || !same(x) {
			continue
		}
		if p.Succs[1] == d {
			op = negate(op)
		}
		switch op {
		case token.GTR, token.GEQ:
			return "pos"
		case token.LSS, token.LEQ:
			return "neg"
		}
	}
	return "sum"
}

// fixSums: the running sums have the given values.
func (k *cmpCheck) fixSums(m map[string]int) func(v ssa.Value) (cval, bool) {
	return func(v ssa.Value) (cval, bool) {
		if s := k.sumKind(v); s != "" {
			if n, ok := m[s]; ok {
				return cInt(n), true
			}
		}
		return cval{}, false
	}
}

func fixSort(n int64) func(ssa.Value) (cval, bool) { return fixCallInt("formula", "Sort", n) }

// evalFormula: the evaluation of a formula that is a constraint.
func (k *cmpCheck) evalFormula() {
	f := k.p.Func("assignment", "Evaluate")
	sorts := enumValues(k.p, "formula", "FSort")
	if f == nil {
		return
	}
	for _, st := range []string{"SortCC", "SortPBC"} {
		for _, n := range cmpNames {
			bad, why, dec := false, "", false
			for _, R := range []int{-50, -1, 0, 1, 50} {
				for _, d := range []int{-2, -1, 0, 1, 2} {
					s := &sccp{p: k.p, Fix: both(k.fixSums(map[string]int{"sum": R + d}), both(fixSort(sorts[st]), k.fixOps(n, R)))}
					r := s.Run(f, nil)
					if len(r.Results) != 1 || r.Results[0].v == nil {
						continue
					}
					dec = true
					if constant.BoolVal(r.Results[0].v) != cmps[n](R+d, R) {
						bad, why = true, fmt.Sprintf("a constraint with comparator %s whose left-hand side is %s the right-hand side %d evaluates to %v", n, ordWord(d), R, r.Results[0].v)
					}
				}
			}
			if dec {
				k.c.Cond(!bad, "compare", "Evaluate "+st+" "+n, k.p.pos(f.Pos()), why)
			} else {
				k.open++
			}
		}
	}
}

// fixedPart: Restrict, Substitute and LiteralSubstitution.
func (k *cmpCheck) fixedPart() {
	sorts := enumValues(k.p, "formula", "FSort")
	for _, e := range []struct {
		pkg, name string
		sums      bool
	}{{"assignment", "Restrict", true}, {"transformation", "Substitute", true}, {"transformation", "SubstituteLiterals", false}} {
		f := k.p.Func(e.pkg, e.name)
		if f == nil {
			continue
		}
		for _, st := range []string{"SortCC", "SortPBC"} {
			for _, n := range cmpNames {
				k.fixedOne(f, e.pkg+"."+e.name+" "+st+" "+n, st, sorts[st], n, e.sums)
			}
		}
	}
}

type formCall struct {
	what string // "true", "false", "?const", "pbc"
	cmp  string
	rhs  int
	ok   bool
}

// formCalls: the constants and constraints that f can build, with the given
// assumptions.
func (k *cmpCheck) formCalls(s *sccp, f *ssa.Function, args []cval) []formCall {
	var out []formCall
	seen := map[*ssa.Function]bool{f: true}
	w := &reachWalk{s: s}
	w.on = func(g *ssa.Function, ci ssa.CallInstruction, as []cval, r *sccpResult) bool {
		cc := ci.Common()
		switch baseName(cc) {
		case "Constant":
			if callee := cc; callee.IsInvoke() || len(as) > 0 {
				a := as[len(as)-1]
				switch {
				case a.v != nil && a.v.Kind() == constant.Bool && constant.BoolVal(a.v):
					out = append(out, formCall{what: "true", ok: true})
				case a.v != nil && a.v.Kind() == constant.Bool:
					out = append(out, formCall{what: "false", ok: true})
				default:
					out = append(out, formCall{what: "?"})
				}
			}
			return false
		case "Verum":
			out = append(out, formCall{what: "true", ok: true})
			return false
		case "Falsum":
			out = append(out, formCall{what: "false", ok: true})
			return false
		case "PBC":
			fc := formCall{what: "pbc"}
			for i, a := range cc.Args {
				if isCSort(a.Type()) {
					fc.cmp = k.cmpName(as[i])
				} else if types.Identical(a.Type(), types.Typ[types.Int]) {
					fc.rhs, fc.ok = as[i].Int()
				}
			}
			fc.ok = fc.ok && fc.cmp != ""
			out = append(out, fc)
			return false
		}
		h := staticCallee(cc)
		if h == nil || pkgOf(h) == nil || pkgOf(h) != pkgOf(f) || seen[h] || isMethodOf(h, "Assignment") {
			return false
		}
		// only into helpers that build formulas
		if h.Signature.Results().Len() == 0 || !isNamed(h.Signature.Results().At(0).Type(), "formula", "Formula") {
			return false
		}
		if !k.takesOps(h) {
			return false
		}
		seen[h] = true
		return true
	}
	w.Run(f, args, 4)
	return out
}

func isMethodOf(f *ssa.Function, typ string) bool {
	r := f.Signature.Recv()
	if r == nil {
		return false
	}
	n, ok := deref(r.Type()).(*types.Named)
	return ok && n.Obj().Name() == typ
}

// takesOps: a helper that works on a constraint: it has a comparator
// parameter or reads one from the factory.
func (k *cmpCheck) takesOps(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isCSort(p.Type()) {
			return true
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && callTo(v, "formula", "PBCOps") {
				return true
			}
		}
	}
	return false
}

func (k *cmpCheck) cmpName(v cval) string {
	if n, ok := v.Int(); ok {
		for s, x := range k.val {
			if int(x) == n {
				return s
			}
		}
	}
	return ""
}

// localLen: the length of a slice that the function builds itself.
func (k *cmpCheck) localLen(size int) func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
	return func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
		call, ok := v.(*ssa.Call)
		if !ok {
			return cval{}, false
		}
		b, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" {
			return cval{}, false
		}
		a := call.Call.Args[0]
		if !grown(a, map[ssa.Value]bool{}) {
			return cval{}, false
		}
		return cInt(size), true
	}
}

// grown: a slice that is made empty and appended to.
func grown(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !grown(e, seen) {
				return false
			}
		}
		return true
	case *ssa.MakeSlice:
		n, ok := intConst(x.Len)
		return ok && n == 0
	case *ssa.Slice:
		_, ok := x.X.(*ssa.Alloc)
		return ok
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "append" && grown(x.Call.Args[0], seen)
	}
	return false
}

func (k *cmpCheck) fixedOne(f *ssa.Function, key, st string, sort int64, n string, sums bool) {
	pos := k.p.pos(f.Pos())
	base := both(fixSort(sort), k.fixOps(n, 50))
	if !sums {
		for _, fc := range k.formCalls(&sccp{p: k.p, Fix: base}, f, nil) {
			if fc.what == "pbc" && fc.ok {
				k.c.Cond(fc.cmp == n && fc.rhs == 50, "fixed-part", key, pos,
					fmt.Sprintf("renaming the literals of a constraint '%s 50' builds '%s %d'", n, fc.cmp, fc.rhs))
			}
		}
		return
	}
	// everything is fixed
	bad, why, dec := false, "", false
	for _, R := range []int{-50, -1, 0, 1, 50} {
		base := both(fixSort(sort), k.fixOps(n, R))
		for _, d := range []int{-2, -1, 0, 1, 2} {
			s := &sccp{p: k.p, Fix: both(k.fixSums(map[string]int{"sum": R + d, "pos": 0, "neg": 0}), base), FixG: k.localLen(0)}
			for _, fc := range k.formCalls(s, f, nil) {
				if !fc.ok {
					continue
				}
				dec = true
				want := fmt.Sprint(cmps[n](R+d, R))
				if fc.what != want {
					bad, why = true, fmt.Sprintf("with every literal fixed and a sum %s the right-hand side, '%s %d' yields %s", ordWord(d), n, R, fc.what)
				}
			}
		}
	}
	if dec {
		k.c.Cond(!bad, "fixed-part", key+" all fixed", pos, why)
	} else {
		k.open++
	}
	// something is open: the constraint that remains
	bad, why, dec = false, "", false
	rems, fixs := []int{20, 0, -1}, []int{30, -7}
	los, his := []int{-40, -1, 0, 1}, []int{-1, 0, 1, 40}
	if k.c.Tier == "thorough" {
		rems, fixs = []int{20, -20, 0, 1, -1}, []int{30, 0, -7}
		los, his = []int{-40, -2, -1, 0, 1, 2}, []int{-2, -1, 0, 1, 2, 40}
	}
	for _, rem := range rems {
		for _, fixed := range fixs {
			base := both(fixSort(sort), k.fixOps(n, rem+fixed))
			var ivs [][2]int
			for _, lo := range los {
				for _, hi := range his {
					if lo <= hi {
						ivs = append(ivs, [2]int{rem + lo, rem + hi})
					}
				}
			}
			for _, iv := range ivs {
				s := &sccp{p: k.p, Fix: both(k.fixSums(map[string]int{"sum": fixed, "pos": iv[1], "neg": iv[0]}), base), FixG: k.localLen(2)}
				all, none := true, true
				for x := iv[0]; x <= iv[1]; x++ {
					if cmps[n](x, rem) {
						none = false
					} else {
						all = false
					}
				}
				for _, fc := range k.formCalls(s, f, nil) {
					if !fc.ok {
						continue
					}
					dec = true
					switch fc.what {
					case "pbc":
						if fc.cmp != n || fc.rhs != rem {
							bad, why = true, fmt.Sprintf("'%s %d' with a fixed part of %d becomes '%s %d'", n, rem+fixed, fixed, fc.cmp, fc.rhs)
						}
					case "true", "false":
						if fc.what == "true" && !all || fc.what == "false" && !none {
							bad, why = true, fmt.Sprintf("an open part between %d and %d and '%s %d' is decided as %s", iv[0], iv[1], n, rem, fc.what)
						}
					}
				}
			}
		}
	}
	if dec {
		k.c.Cond(!bad, "fixed-part", key+" open part", pos, why)
	} else {
		k.open++
	}
}

// contributions: which literals of a constraint add their coefficient to the
// fixed part, and what is kept of the others.
func (k *cmpCheck) contributions() {
	sorts := enumValues(k.p, "formula", "FSort")
	for _, e := range []struct {
		pkg, name string
		phase     bool // the value of the variable is known, not that of the literal
	}{{"assignment", "Restrict", false}, {"transformation", "Substitute", true}, {"assignment", "Evaluate", false}} {
		f := k.p.Func(e.pkg, e.name)
		if f == nil {
			continue
		}
		fi := -1
		for i, p := range f.Params {
			if isNamed(p.Type(), "formula", "Formula") {
				fi = i
			}
		}
		if fi < 0 {
			continue
		}
		for _, st := range []string{"SortTrue", "SortFalse", "SortLiteral"} {
			for _, pos := range []bool{true, false} {
				want := st == "SortTrue"
				if e.phase {
					want = st == "SortTrue" && pos || st == "SortFalse" && !pos
				}
				if e.name == "Evaluate" && st == "SortLiteral" {
					continue
				}
				fixg := func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
					if x, ok := v.(*ssa.Extract); ok && x.Index == 0 {
						if l, ok := x.Tuple.(*ssa.Lookup); ok && l.CommaOk {
							return cval{sym: "repl"}, true
						}
					}
					if _, ok := v.(*ssa.Call); !ok {
						return litOps(-1)(v, get)
					}
					call := v.(*ssa.Call)
					if call.Call.IsInvoke() {
						return cval{}, false
					}
					if callTo(v, "formula", "Sort") && len(call.Call.Args) == 1 {
						if get(call.Call.Args[0]).sym == "formula" {
							return cInt(int(sorts["SortCC"])), true
						}
						return cInt(int(sorts[st])), true
					}
					if h := staticCallee(&call.Call); h == f && e.name == "Evaluate" {
						return cval{v: constant.MakeBool(st == "SortTrue")}, true
					}
					return litOps(-1)(v, get)
				}
				fix := both(fixCall("formula", "IsPos", pos), both(fixCall("formula", "IsNeg", !pos), k.fixOps("LE", 50)))
				adds, keep := false, map[string]bool{}
				sumSeen := false
				w := &reachWalk{s: &sccp{p: k.p, Fix: fix, FixG: fixg, maxD: 1}}
				w.at = func(g *ssa.Function, r *sccpResult) {
					for _, b := range g.Blocks {
						for _, in := range b.Instrs {
							switch x := in.(type) {
							case *ssa.BinOp:
								if x.Op != token.ADD || !k.isCoef(x.X, 0) && !k.isCoef(x.Y, 0) {
									continue
								}
								co := x.X
								if k.isCoef(x.Y, 0) {
									co = x.Y
								}
								if coefSign(co, b) != "sum" {
									continue
								}
								sumSeen = true
								if r.Reach[b] {
									adds = true
								}
							case *ssa.Call:
								bi, ok := x.Call.Value.(*ssa.Builtin)
								if !ok || bi.Name() != "append" || !r.Reach[b] || len(x.Call.Args) != 2 || x.Type().String() == "[]int" {
									continue
								}
								for _, el := range variadicElems(x.Call.Args[1]) {
									keep[r.get(el).sym] = true
								}
							}
						}
					}
				}
				seen := map[*ssa.Function]bool{f: true}
				w.on = func(g *ssa.Function, ci ssa.CallInstruction, as []cval, r *sccpResult) bool {
					h := staticCallee(ci.Common())
					if h == nil || pkgOf(h) != pkgOf(f) || seen[h] || isMethodOf(h, "Assignment") {
						return false
					}
					ops := k.takesOps(h)
					for _, a := range as {
						ops = ops || strings.HasPrefix(a.sym, "lits") || strings.HasPrefix(a.sym, "coefs")
					}
					if ops {
						seen[h] = true
					}
					return ops
				}
				args := make([]cval, len(f.Params))
				args[fi] = cval{sym: "formula"}
				w.Run(f, args, 4)
				if !sumSeen {
					k.open++
					continue
				}
				ph := "positive"
				if !pos {
					ph = "negative"
				}
				key := fmt.Sprintf("%s.%s %s %s literal", e.pkg, e.name, strings.ToLower(st[4:]), ph)
				k.c.Cond(adds == want, "fixed-part", key, k.p.pos(f.Pos()),
					fmt.Sprintf("a %s literal that becomes a %s adds its coefficient to the fixed part: %v", ph, strings.ToLower(st[4:]), adds))
				if e.phase {
					allowed := map[string]bool{"lits[]": true, "": true}
					if st == "SortLiteral" {
						if pos {
							allowed["repl"] = true
						} else {
							allowed["~repl"] = true
						}
					}
					wrong := ""
					for s := range keep {
						if !allowed[s] {
							wrong = s
						}
					}
					k.c.Cond(wrong == "", "fixed-part", key+" kept", k.p.pos(f.Pos()),
						fmt.Sprintf("a %s literal whose variable is replaced by a %s is kept as the %s", ph, strings.ToLower(st[4:]), strings.NewReplacer("~", "negation of the ", "repl", "replacement").Replace(wrong)))
				}
			}
		}
	}
}

// ---- encodings ----

// encField: the field of the encoding configuration that decides whether the
// block runs.
func encField(b *ssa.BasicBlock) string {
	for d := b; d != nil; d = d.Idom() {
		if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && d != b {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				for _, v := range []ssa.Value{bo.X, bo.Y} {
					if n := encFieldOf(v); n != "" {
						return n
					}
				}
			}
		}
	}
	return ""
}

func encFieldOf(v ssa.Value) string {
	n, ok := deref(v.Type()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || shortPkg(n.Obj().Pkg()) != "encoding" {
		return ""
	}
	switch s := n.Obj().Name(); s {
	case "AMOEncoder", "AMKEncoder", "ALKEncoder", "EXKEncoder":
		return s[:3]
	}
	return ""
}

// actions: what an encoding does for the given comparator, bound and number
// of variables.
func (k *cmpCheck) actions(f *ssa.Function, n string, rhs, size int) (map[string]bool, bool) {
	out := map[string]bool{}
	ok := true
	sorts := enumValues(k.p, "formula", "FSort")
	s := &sccp{p: k.p, Fix: both(fixSort(sorts["SortCC"]), k.fixOps(n, rhs)), FixG: litOps(size), maxD: 3}
	w := &reachWalk{s: s}
	w.on = func(g *ssa.Function, ci ssa.CallInstruction, as []cval, r *sccpResult) bool {
		cc := ci.Common()
		name := baseName(cc)
		if name == "AddClause" && (cc.IsInvoke() || isMethodOf(staticCallee(cc), "FormulaEncoding")) {
			a := clauseArg(ci, as[len(as)-1], cc.Args[len(cc.Args)-1], r, size)
			if a == "?" {
				ok = false
			}
			out[a] = true
			return false
		}
		h := staticCallee(cc)
		if h == nil || pkgOf(h) == nil || shortPkg(pkgOf(h)) != "encoding" {
			return false
		}
		if fld := encField(ci.Block()); fld != "" && hasResultParam(h) {
			bound := "?"
			for i, a := range cc.Args {
				if types.Identical(a.Type(), types.Typ[types.Int]) {
					if m, is := as[i].Int(); is {
						bound = fmt.Sprint(m)
					}
				}
			}
			if fld == "AMO" {
				bound = ""
			} else if bound == "?" {
				ok = false
			}
			out[fld+bound] = true
			return false
		}
		if h.Signature.Results().Len() == 1 && isNamed(h.Signature.Results().At(0).Type(), "encoding", "Config") {
			return false
		}
		return true
	}
	w.Run(f, nil, 5)
	return out, ok
}

func hasResultParam(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isNamed(p.Type(), "encoding", "Result") {
			return true
		}
	}
	return false
}

// clauseArg classifies the literals of a clause.
func clauseArg(ci ssa.CallInstruction, a cval, v ssa.Value, r *sccpResult, size int) string {
	if a.nil_ {
		return "empty"
	}
	if a.sym == "lits" {
		if size == 1 {
			return "pos"
		}
		return "or"
	}
	es := variadicElems(v)
	if len(es) != 1 {
		return "?"
	}
	e := r.get(es[0]).sym
	each := inLoop(ci.Block()) || size == 1
	if !each {
		return "?"
	}
	switch e {
	case "lits[]":
		return "pos"
	case "~lits[]":
		return "neg"
	}
	return "?"
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

// encExpect: what the clauses for k out of size variables must be.
func encExpect(kind string, bound, size int) []string {
	amo := func() []string {
		if size <= 1 {
			return nil
		}
		return []string{"AMO"}
	}
	switch kind {
	case "AMK":
		switch {
		case bound < 0:
			return []string{"empty"}
		case bound >= size:
			return nil
		case bound == 0:
			return []string{"neg"}
		case bound == 1:
			return amo()
		}
		return []string{fmt.Sprint("AMK", bound)}
	case "ALK":
		switch {
		case bound <= 0:
			return nil
		case bound > size:
			return []string{"empty"}
		case bound == size:
			return []string{"pos"}
		case bound == 1:
			return []string{"or"}
		}
		return []string{fmt.Sprint("ALK", bound)}
	}
	switch {
	case bound < 0 || bound > size:
		return []string{"empty"}
	case bound == size && bound == 0:
		return nil
	case bound == 0:
		return []string{"neg"}
	case bound == size:
		return []string{"pos"}
	case bound == 1:
		return append(amo(), "or")
	}
	return []string{fmt.Sprint("EXK", bound)}
}

func encOf(n string, rhs int) (string, int) {
	switch n {
	case "LE":
		return "AMK", rhs
	case "LT":
		return "AMK", rhs - 1
	case "GE":
		return "ALK", rhs
	case "GT":
		return "ALK", rhs + 1
	}
	return "EXK", rhs
}

func (k *cmpCheck) encode() {
	for _, e := range []string{"EncodeCCInResult", "EncodeIncremental"} {
		f := k.p.Func("encoding", e)
		if f == nil {
			continue
		}
		for _, n := range cmpNames {
			if e == "EncodeIncremental" && n == "EQ" {
				continue
			}
			for _, size := range []int{1, 2, 3, 6} {
				for rhs := 0; rhs <= size+2; rhs++ {
					kind, bound := encOf(n, rhs)
					got, ok := k.actions(f, n, rhs, size)
					if !ok {
						k.open++
						continue
					}
					want := map[string]bool{}
					for _, a := range encExpect(kind, bound, size) {
						want[a] = true
					}
					norm := map[string]bool{}
					for a := range got {
						// the general encodings of the bound 1 are as good
						if a == "AMK1" && want["AMO"] {
							a = "AMO"
						}
						if a == "EXK1" && want["AMO"] && want["or"] {
							norm["or"] = true
							a = "AMO"
						}
						norm[a] = true
					}
					k.c.Cond(keys(norm) == keys(want), "encode", fmt.Sprintf("%s %s %d of %d", e, n, rhs, size), k.p.pos(f.Pos()),
						fmt.Sprintf("the constraint '%s %d' over %d variables is encoded as %s, expected %s", n, rhs, size, actText(norm), actText(want)))
				}
			}
		}
	}
}

func keys(m map[string]bool) string {
	var s []string
	for x := range m {
		s = append(s, x)
	}
	sort.Strings(s)
	return strings.Join(s, "+")
}

func actText(m map[string]bool) string {
	if len(m) == 0 {
		return "no clause at all"
	}
	return "{" + keys(m) + "}"
}

// native: the at-most clauses of the SAT solver.
func (k *cmpCheck) native() {
	f := k.p.Func("sat", "Solver.Add")
	if f == nil {
		return
	}
	sorts := enumValues(k.p, "formula", "FSort")
	for _, n := range cmpNames {
		for rhs := 0; rhs <= 6; rhs++ {
			fix := func(v ssa.Value) (cval, bool) {
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					if key, _ := addrFieldKey(u.X, 0); strings.HasSuffix(key, ".UseAtMostClauses") {
						return cval{v: constant.MakeBool(true)}, true
					}
				}
				return cval{}, false
			}
			s := &sccp{p: k.p, Fix: both(fix, both(fixSort(sorts["SortCC"]), k.fixOps(n, rhs)))}
			most, clause, other, unknown := -1, false, false, false
			w := &reachWalk{s: s}
			w.on = func(g *ssa.Function, ci ssa.CallInstruction, as []cval, r *sccpResult) bool {
				cc := ci.Common()
				h := staticCallee(cc)
				if h == nil || pkgOf(h) == nil {
					if !cc.IsInvoke() || baseName(cc) != "PBCOps" {
						return false
					}
					return false
				}
				if isMethodOf(h, "CoreSolver") {
					if len(cc.Args) == 3 && types.Identical(cc.Args[2].Type(), types.Typ[types.Int]) {
						if m, ok := as[2].Int(); ok {
							most = m
						} else {
							unknown = true
						}
					} else if h.Name() == "AddClause" || h.Name() == "addClause" {
						clause = true
					}
					return false
				}
				if shortPkg(pkgOf(h)) != "sat" {
					if shortPkg(pkgOf(h)) == "encoding" || shortPkg(pkgOf(h)) == "normalform" {
						other = true
					}
					return false
				}
				if isMethodOf(h, "Solver") && !takesCNF(h) {
					return true
				}
				if takesCNF(h) {
					other = true
				}
				return false
			}
			w.Run(f, nil, 3)
			if unknown || most < 0 && other || most < 0 && !clause {
				if most < 0 && !other && !unknown {
					k.c.Bad("native", fmt.Sprintf("%s %d", n, rhs), k.p.pos(f.Pos()), "the constraint is not added in any way")
				} else {
					k.c.Ok("native", fmt.Sprintf("%s %d", n, rhs), k.p.pos(f.Pos()))
				}
				continue
			}
			ok := true
			for x := 0; x <= 12; x++ {
				have := (most < 0 || x <= most) && (!clause || x >= 1)
				if have != cmps[n](x, rhs) {
					ok = false
				}
			}
			what := fmt.Sprintf("at most %d", most)
			if clause {
				what += " and at least one"
			}
			k.c.Cond(ok, "native", fmt.Sprintf("%s %d", n, rhs), k.p.pos(f.Pos()), fmt.Sprintf("the constraint '%s %d' is added as %s", n, rhs, what))
		}
	}
}

// takesCNF: a method of the solver that converts a formula to clauses in
// another way (it depends on the CNF method).
func takesCNF(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				if st := structOf(fa.X.Type()); st != nil && st.Field(fa.Field).Name() == "CNFMethod" {
					return true
				}
			}
		}
	}
	return false
}

// ---- normal forms ----

// normalize: which coefficients and right-hand side are normalized.
func (k *cmpCheck) normalize() {
	f := k.p.Func("encoding", "Normalize")
	if f == nil {
		return
	}
	for _, nr := range cmpSamples() {
		n, R := nr.n, nr.r
		s := &sccp{p: k.p, Fix: k.fixOps(n, R)}
		r := s.Run(f, nil)
		got := map[string]bool{}
		unknown := false
		nCalls := 0
		stale := ""
		var used []*ssa.Call
		for _, b := range f.Blocks {
			if !r.Reach[b] {
				continue
			}
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := staticCallee(&call.Call)
				if g == nil || pkgOf(g) != pkgOf(f) {
					continue
				}
				li, co, rh := -1, -1, -1
				for i, a := range call.Call.Args {
					switch {
					case a.Type().String() == "[]int":
						co = i
					case types.Identical(a.Type(), types.Typ[types.Int]):
						rh = i
					case strings.HasPrefix(a.Type().String(), "[]"):
						li = i
					}
				}
				if li < 0 || co < 0 || rh < 0 {
					continue
				}
				nCalls++
				m, ok := r.get(call.Call.Args[rh]).Int()
				sign := sliceSign(call.Call.Args[co], r)
				if !ok || sign == "" {
					unknown = true
					continue
				}
				got[fmt.Sprintf("%s%d", sign, m)] = true
				for _, o := range used {
					for _, i := range []int{li, co} {
						if o.Call.Args[i] == call.Call.Args[i] && overwrites(g, i) && !rewritten(call.Call.Args[i], o, call) {
							stale = k.p.pos(call.Pos())
						}
					}
				}
				used = append(used, call)
			}
		}
		plus := func(m int) string { return fmt.Sprintf("+%d", m) }
		minus := func(m int) string { return fmt.Sprintf("-%d", m) }
		want := map[string]map[string]bool{
			"LE": {plus(R): true}, "LT": {plus(R - 1): true}, "GE": {minus(-R): true}, "GT": {minus(-R - 1): true},
			"EQ": {plus(R): true, minus(-R): true},
		}[n]
		if nCalls == 0 || unknown {
			k.open++
			continue
		}
		k.c.Cond(keys(got) == keys(want), "normalize", fmt.Sprint(n, " ", R), k.p.pos(f.Pos()),
			fmt.Sprintf("a constraint '%s %d' is normalized as '<=' with sign and right-hand side %s, expected %s", n, R, keys(got), keys(want)))
		k.c.Cond(stale == "", "normalize", fmt.Sprint(n, " ", R, " operands"), stale, "the operands were already changed in place by an earlier normalization")
	}
}

// overwrites: f writes elements of its i-th parameter.
func overwrites(f *ssa.Function, i int) bool {
	if i >= len(f.Params) {
		return false
	}
	var cells []ssa.Value
	p := f.Params[i]
	cells = append(cells, p)
	for _, r := range *p.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Val == p {
			for _, r2 := range *st.Addr.Referrers() {
				if u, ok := r2.(*ssa.UnOp); ok {
					cells = append(cells, u)
				}
			}
		}
	}
	for _, v := range cells {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok && ia.X == v {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
						return true
					}
				}
			}
		}
	}
	return false
}

// rewritten: between the two calls the slice is filled again.
func rewritten(s ssa.Value, a, b *ssa.Call) bool {
	for _, r := range *s.Referrers() {
		if c, ok := r.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && c.Call.Args[0] == s &&
				(c.Block() == a.Block() && c.Pos() > a.Pos() && c.Pos() < b.Pos() || c.Block() != a.Block() && a.Block().Dominates(c.Block()) && c.Block().Dominates(b.Block())) {
				return true
			}
		}
		if ia, ok := r.(*ssa.IndexAddr); ok && a.Block().Dominates(ia.Block()) && ia.Block() != a.Block() && b.Block() != ia.Block() {
			for _, r2 := range *ia.Referrers() {
				if _, ok := r2.(*ssa.Store); ok {
					return true
				}
			}
		}
	}
	return false
}

// sliceSign: "+" if the slice is filled with the coefficients of the
// constraint, "-" if with their negations.
func sliceSign(v ssa.Value, r *sccpResult) string {
	if r.get(v).sym == "coefs" {
		return "+"
	}
	signs := map[string]bool{}
	if v.Referrers() == nil {
		return ""
	}
	if c, ok := v.(*ssa.Call); ok { // slices.Clone and the like
		for _, a := range c.Call.Args {
			if r.get(a).sym == "coefs" {
				signs["+"] = true
			}
		}
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.Call:
			if !r.Reach[x.Block()] {
				continue
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && x.Call.Args[0] == v {
				if r.get(x.Call.Args[1]).sym == "coefs" {
					signs["+"] = true
				} else {
					signs["?"] = true
				}
			}
		case *ssa.IndexAddr:
			if !r.Reach[x.Block()] {
				continue
			}
			for _, u2 := range *x.Referrers() {
				if st, ok := u2.(*ssa.Store); ok && st.Addr == x {
					switch s := elemSign(st.Val, r); s {
					case "+", "-":
						signs[s] = true
					default:
						signs["?"] = true
					}
				}
			}
		}
	}
	if len(signs) != 1 || signs["?"] {
		return ""
	}
	return keys(signs)
}

func elemSign(v ssa.Value, r *sccpResult) string {
	switch r.get(v).sym {
	case "coefs[]":
		return "+"
	case "-coefs[]":
		return "-"
	}
	if b, ok := v.(*ssa.BinOp); ok {
		x, y := r.get(b.X), r.get(b.Y)
		if n, ok := x.Int(); ok && b.Op == token.SUB && n == 0 && y.sym == "coefs[]" {
			return "-"
		}
		for _, q := range [][2]cval{{x, y}, {y, x}} {
			if n, ok := q[0].Int(); ok && b.Op == token.MUL && q[1].sym == "coefs[]" {
				switch n {
				case 1:
					return "+"
				case -1:
					return "-"
				}
			}
		}
	}
	return ""
}

// negate: the constraints whose disjunction is the negation.
func (k *cmpCheck) negate() {
	f := k.p.Func("encoding", "NegatePBC")
	if f == nil {
		return
	}
	for _, nr := range cmpSamples() {
		n, R := nr.n, nr.r
		var cs []formCall
		or, and := false, false
		s := &sccp{p: k.p, Fix: k.fixOps(n, R)}
		w := &reachWalk{s: s}
		signOK := true
		w.on = func(g *ssa.Function, ci ssa.CallInstruction, as []cval, r *sccpResult) bool {
			switch baseName(ci.Common()) {
			case "PBC":
				fc := formCall{what: "pbc"}
				for i, a := range ci.Common().Args {
					if isCSort(a.Type()) {
						fc.cmp = k.cmpName(as[i])
					} else if types.Identical(a.Type(), types.Typ[types.Int]) {
						fc.rhs, fc.ok = as[i].Int()
					} else if a.Type().String() == "[]int" && as[i].sym != "coefs" {
						signOK = false
					}
				}
				fc.ok = fc.ok && fc.cmp != ""
				cs = append(cs, fc)
				return false
			case "Or":
				or = true
				return false
			case "And":
				and = true
				return false
			}
			h := staticCallee(ci.Common())
			return h != nil && pkgOf(h) == pkgOf(f)
		}
		w.Run(f, nil, 2)
		ok := len(cs) > 0 && signOK
		for _, x := range cs {
			ok = ok && x.ok
		}
		if !ok {
			k.open++
			continue
		}
		why := ""
		if len(cs) > 1 && !or || and {
			why = "the parts are not combined by a disjunction"
		}
		for x := R - 4; x <= R+4 && why == ""; x++ {
			have := false
			for _, q := range cs {
				have = have || cmps[q.cmp](x, q.rhs)
			}
			if have == cmps[n](x, R) {
				var t []string
				for _, q := range cs {
					t = append(t, fmt.Sprintf("%s %d", q.cmp, q.rhs))
				}
				why = fmt.Sprintf("the negation of '%s %d' is built as '%s', which is wrong for the sum %d", n, R, strings.Join(t, "' or '"), x)
			}
		}
		k.c.Cond(why == "", "negate", fmt.Sprint(n, " ", R), k.p.pos(f.Pos()), why)
	}
}

// ---- notation ----

var symField = map[string]string{"EQ": "Equal", "LE": "LessOrEqual", "LT": "Less", "GE": "GreaterOrEqual", "GT": "Greater"}
var symText = map[string]string{"EQ": "=", "LE": "<=", "LT": "<", "GE": ">=", "GT": ">"}

func (k *cmpCheck) notation() {
	// printing
	for _, f := range k.p.Funcs {
		if pkgOf(f) == nil || shortPkg(pkgOf(f)) != "formula" || f.Signature.Results().Len() != 1 || f.Parent() != nil {
			continue
		}
		ci, si := -1, -1
		for i, p := range f.Params {
			if isCSort(p.Type()) {
				ci = i
			}
			if isNamed(p.Type(), "formula", "PrintSymbols") {
				si = i
			}
		}
		if ci < 0 || si < 0 {
			continue
		}
		for _, n := range cmpNames {
			args := make([]cval, len(f.Params))
			args[ci] = k.cmp(n)
			r := (&sccp{p: k.p}).Run(f, args)
			got := map[string]bool{}
			for _, b := range f.Blocks {
				if !r.Reach[b] {
					continue
				}
				for _, in := range b.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || !isNamed(fa.X.Type(), "formula", "PrintSymbols") {
						continue
					}
					name := structOf(fa.X.Type()).Field(fa.Field).Name()
					for _, s := range symField {
						if s == name {
							got[name] = true
						}
					}
				}
			}
			if len(got) > 0 {
				k.c.Cond(len(got) == 1 && got[symField[n]], "notation", rel(f)+" "+n, k.p.pos(f.Pos()),
					fmt.Sprintf("the comparator %s is printed with the symbol %s", n, keys(got)))
			}
		}
	}
	// default symbols
	if f := k.p.Func("formula", "DefaultSymbols"); f != nil {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isNamed(fa.X.Type(), "formula", "PrintSymbols") {
					continue
				}
				kc, ok := st.Val.(*ssa.Const)
				if !ok || kc.Value == nil {
					continue
				}
				name := structOf(fa.X.Type()).Field(fa.Field).Name()
				for n, s := range symField {
					if s == name {
						t := strings.TrimSpace(constant.StringVal(kc.Value))
						k.c.Cond(t == symText[n], "notation", "default symbol "+n, k.p.pos(st.Pos()), fmt.Sprintf("the default symbol of %s is %q", n, t))
					}
				}
			}
		}
	}
	// parsing
	tok := k.tokens()
	for _, f := range k.p.Funcs {
		if pkgOf(f) == nil || shortPkg(pkgOf(f)) != "parser" || f.Signature.Results().Len() != 1 || !isCSort(f.Signature.Results().At(0).Type()) {
			continue
		}
		for _, n := range cmpNames {
			fix := func(v ssa.Value) (cval, bool) {
				c, ok := v.(*ssa.Call)
				if !ok {
					return cval{}, false
				}
				if m := baseName(&c.Call); cmps[m] != nil {
					if m == n {
						return cval{nonnil: true}, true
					}
					return cval{nil_: true}, true
				}
				return cval{}, false
			}
			r := (&sccp{p: k.p, Fix: fix}).Run(f, nil)
			if len(r.Results) != 1 || r.Results[0].v == nil {
				k.open++
				continue
			}
			got := k.cmpName(r.Results[0])
			k.c.Cond(got == n, "notation", "parse "+n, k.p.pos(f.Pos()), fmt.Sprintf("the token %s is parsed as the comparator %s", n, got))
		}
	}
	for _, n := range cmpNames {
		if t, ok := tok[n]; ok {
			k.c.Cond(t == symText[n], "notation", "token "+n, "", fmt.Sprintf("the token %s of the parser is the text %q", n, t))
		}
	}
}

// tokens: the literal text of each token of the generated parser.
func (k *cmpCheck) tokens() map[string]string {
	out := map[string]string{}
	pk := k.p.ByPth["parser"]
	if pk == nil {
		return out
	}
	var lits []string
	for _, f := range k.p.Funcs {
		if pkgOf(f) != pk.Types {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || structOf(fa.X.Type()) == nil || structOf(fa.X.Type()).Field(fa.Field).Name() != "LiteralNames" {
					continue
				}
				if es := arrayElems(st.Val); len(es) > 0 && lits == nil {
					lits = es
				}
			}
		}
	}
	sc := pk.Types.Scope()
	for _, n := range sc.Names() {
		kc, ok := sc.Lookup(n).(*types.Const)
		if !ok || !strings.HasPrefix(n, "LogicNGPropositionalParser") || strings.Contains(n, "RULE") {
			continue
		}
		if i, ok := constant.Int64Val(kc.Val()); ok && i > 0 && int(i) < len(lits) {
			out[strings.TrimPrefix(n, "LogicNGPropositionalParser")] = strings.Trim(lits[i], "'")
		}
	}
	return out
}

// arrayElems: the constant strings of a slice literal, by index.
func arrayElems(v ssa.Value) []string {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]string, at.Len())
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			i, ok := intConst(ia.Index)
			if !ok {
				continue
			}
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					if kc, ok := st.Val.(*ssa.Const); ok && kc.Value != nil && kc.Value.Kind() == constant.String && i < len(out) {
						out[i] = constant.StringVal(kc.Value)
					}
				}
			}
		}
	}
	return out
}

// amoExo: what ExpandAMOAndEXO accepts.
func (k *cmpCheck) amoExo() {
	f := k.p.Func("transformation", "ExpandAMOAndEXO")
	if f == nil {
		return
	}
	sorts := enumValues(k.p, "formula", "FSort")
	for _, n := range cmpNames {
		for rhs := 0; rhs <= 3; rhs++ {
			amo, exo := true, true
			for x := 0; x <= 6; x++ {
				amo = amo && cmps[n](x, rhs) == (x <= 1)
				exo = exo && cmps[n](x, rhs) == (x == 1)
			}
			r := (&sccp{p: k.p, Fix: both(fixSort(sorts["SortCC"]), k.fixOps(n, rhs))}).Run(f, nil)
			if len(r.Results) != 2 {
				k.open++
				continue
			}
			refused := true
			for _, ret := range r.Returns {
				if !r.get(ret.Results[1]).nonnil {
					refused = false
				}
			}
			k.c.Cond(refused == !(amo || exo), "amo-exo", fmt.Sprintf("%s %d", n, rhs), k.p.pos(f.Pos()),
				fmt.Sprintf("'%s %d' is refused: %v", n, rhs, refused))
		}
	}
}
