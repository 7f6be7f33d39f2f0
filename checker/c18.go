package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C18"] = checkC18 }

// checkC18: what is printed is read back as the same formula.  The printer is
// evaluated per sort of formula (conditional constant propagation with
// symbolic strings), the symbols it writes are taken from the constants of the
// default symbols, the lexer and the grammar from the automata the generated
// code carries, the meaning of a token from the listener.
func checkC18(c *Ctx) {
	c.Rule("symbol", "the symbol printed for a sort of formula is, with the default symbols, one token of the lexer, and the listener builds exactly this sort from it", 8)
	c.Rule("text", "the symbols keep their tokens between any names, numbers and brackets they can stand between", 20)
	c.Rule("bracket", "an operand printed without brackets is of a sort the grammar reads there as one operand", 15)
	c.Rule("operand", "a formula is printed from its own operands, the left one on the left, and read with the left one as left", 2)
	c.Rule("coefficient", "a coefficient is printed with its own literal, left out only if it is one, and read as the coefficient of that literal", 2)
	c.Rule("name", "the names of literals, also generated ones, are one token each, and the sign is split off as it was put there", 6)
	c.Rule("lines", "a formula is split into lines only where the lines are read back as its conjunction", 1)
	c.Rule("dimacs", "the DIMACS writer writes each literal with the number of its variable and the sign of its phase, and as many clauses as it announces; the reader reads sign and number back", 4)
	if c.fixture {
		return
	}
	k := &roundTrip{c: c, p: c.P}
	k.run()
	c.Extra["open"] = k.open
}

type roundTrip struct {
	c     *Ctx
	p     *Program
	open  []string
	lexer *atn
	gram  *atn
	sorts map[string]int64 // SortAnd -> 4
	name  map[int64]string
	comps map[string]int64
	text  map[string]string // PrintSymbols field -> text
	toks  map[string]int    // PrintSymbols field -> token
	mean  map[int]string    // token -> sort or comparator
	N     *ssa.Function
	R     map[*ssa.Function]bool
	// field of a sort
	field map[string]string
}

func (k *roundTrip) opened(f string, a ...any) { k.open = append(k.open, fmt.Sprintf(f, a...)) }

func (k *roundTrip) run() {
	p, c := k.p, k.c
	for _, x := range []struct {
		file string
		to   **atn
	}{{"_lexer.go", &k.lexer}, {"_parser.go", &k.gram}} {
		d := serialized(p, "parser", "/logicngpropositional"+x.file)
		if len(d) == 0 {
			k.opened("no automaton found in the generated %s", x.file)
			continue
		}
		a, err := decodeATN(d)
		if err != nil {
			k.opened("the automaton of %s %v", x.file, err)
			continue
		}
		*x.to = a
	}
	k.sorts = map[string]int64{}
	k.name = map[int64]string{}
	for n, v := range enumValues(p, "formula", "FSort") {
		if strings.HasPrefix(n, "Sort") {
			k.sorts[n] = v
			k.name[v] = n
		}
	}
	k.comps = enumValues(p, "formula", "CSort")
	k.symbols()
	k.printer()
	if k.lexer == nil || k.gram == nil || k.N == nil || len(k.text) == 0 {
		k.opened("printer, symbols or automata not found")
		return
	}
	k.meaning()
	k.symbolRule()
	k.textRule()
	k.shapes()
	k.pbc()
	k.pbcRead()
	k.names()
	k.linesRule()
	k.dimacsWrite()
	k.dimacsRead()
	c.Extra["default symbols"] = k.text
	c.Extra["lexer rules"] = len(k.lexer.start)
	c.Extra["grammar rules"] = len(k.gram.start)
}

// symbols reads the texts of the default symbols.
func (k *roundTrip) symbols() {
	k.text, k.toks = map[string]string{}, map[string]int{}
	f := k.p.Func("formula", "DefaultSymbols")
	if f == nil {
		return
	}
	bad := map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !isNamed(deref(fa.X.Type()), "formula", "PrintSymbols") {
				continue
			}
			n := fieldName(deref(fa.X.Type()), fa.Field)
			kc, ok := st.Val.(*ssa.Const)
			if !ok || kc.Value == nil {
				bad[n] = true
				continue
			}
			if _, twice := k.text[n]; twice {
				bad[n] = true
			}
			k.text[n] = constant.StringVal(kc.Value)
		}
	}
	for n := range bad {
		delete(k.text, n)
		k.opened("the default symbol %s is not a constant", n)
	}
}

// printer finds the function that prints by the sort of its own parameter.
func (k *roundTrip) printer() {
	root := k.p.Func("formula", "Formula.Sprint")
	if root == nil {
		return
	}
	k.R = map[*ssa.Function]bool{root: true}
	for _, n := range []string{"Literal.Sprint", "Variable.Sprint"} {
		if f := k.p.Func("formula", n); f != nil {
			k.R[f] = true
		}
	}
	seen := map[*ssa.Function]bool{root: true}
	work := []*ssa.Function{root}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := staticCallee(&cl.Call)
				if g == nil || !inModule(g) {
					continue
				}
				if isSort(cl) && len(cl.Call.Args) > 0 {
					if _, own := strip(cl.Call.Args[0]).(*ssa.Parameter); own {
						k.N = f
						k.R[f] = true
						return
					}
				}
				g = canonOf(g)
				if !seen[g] && shortPkg(pkgOf(g)) == "formula" {
					seen[g] = true
					work = append(work, g)
				}
			}
		}
	}
}

func isSort(c *ssa.Call) bool {
	g := staticCallee(&c.Call)
	return g != nil && g.Name() == "Sort" && pkgOf(g) != nil && shortPkg(pkgOf(g)) == "formula" && isNamed(c.Type(), "formula", "FSort")
}

func strip(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return v
		}
	}
}

// psym: the sym of a value, "?" if it has none.
func psym(c cval) string {
	switch {
	case c.v != nil && c.v.Kind() == constant.String:
		return constant.StringVal(c.v)
	case c.v != nil && c.v.Kind() == constant.Int:
		return c.v.ExactString()
	case c.sym != "":
		return c.sym
	}
	return ""
}

// strings of known parts: concatenation, Sprintf and the like.
func stringEval(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op != token.ADD || !isString(x.Type()) {
			return cBottom, false
		}
		a, b := get(x.X), get(x.Y)
		if a.top || b.top {
			return cTop, true
		}
		if a.v != nil && b.v != nil {
			return cBottom, false
		}
		s, t := psym(a), psym(b)
		if s == "" && a.v == nil {
			s = "\x00"
		}
		if t == "" && b.v == nil {
			t = "\x00"
		}
		return cval{sym: s + t}, true
	case *ssa.Phi:
		// known and unknown strings together are unknown
		return cBottom, false
	case *ssa.Slice:
		if !isString(x.X.Type()) || x.High != nil {
			return cBottom, false
		}
		a := get(x.X)
		if a.top {
			return cTop, true
		}
		n := 0
		if x.Low != nil {
			l := get(x.Low)
			if l.top {
				return cTop, true
			}
			var ok bool
			if n, ok = l.Int(); !ok {
				return cBottom, true
			}
		}
		if a.sym == "" {
			return cBottom, false
		}
		if n == 0 {
			return a, true
		}
		return cval{sym: fmt.Sprintf("%s[%d:]", a.sym, n)}, true
	case *ssa.Call:
		g := staticCallee(&x.Call)
		if g == nil || pkgOf(g) == nil {
			return cBottom, false
		}
		switch pkgOf(g).Path() + "." + g.Name() {
		case "strconv.Itoa":
			a := get(x.Call.Args[0])
			if a.top {
				return cTop, true
			}
			if s := psym(a); s != "" {
				return cval{sym: "{" + s + "}"}, true
			}
			return cval{sym: "{\x00}"}, true
		case "fmt.Sprintf", "fmt.Sprint":
			var args []ssa.Value
			format := ""
			if g.Name() == "Sprintf" {
				kc, ok := x.Call.Args[0].(*ssa.Const)
				if !ok {
					return cBottom, true
				}
				format = constant.StringVal(kc.Value)
				args = varargs(x.Call.Args[1])
			} else {
				args = varargs(x.Call.Args[0])
				format = strings.Repeat("%v", len(args))
			}
			out, top := formatSym(format, args, get)
			if top {
				return cTop, true
			}
			if out == "" {
				return cBottom, true
			}
			return cval{sym: out}, true
		}
	}
	return cBottom, false
}

func formatSym(format string, args []ssa.Value, get func(ssa.Value) cval) (string, bool) {
	out := ""
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' || i+1 >= len(format) {
			out += string(format[i])
			continue
		}
		i++
		switch format[i] {
		case '%':
			out += "%"
		case 's', 'd', 'v':
			if n >= len(args) || args[n] == nil {
				return "", false
			}
			a := args[n]
			n++
			if mi, ok := a.(*ssa.MakeInterface); ok {
				a = mi.X
			}
			v := get(a)
			if v.top {
				return "", true
			}
			s := psym(v)
			if s == "" && v.v == nil {
				s = "\x00"
			}
			if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				s = "{" + s + "}"
			}
			out += s
		default:
			return "", false
		}
	}
	return out, false
}

// printing is the evaluation of the printer for a formula of sort P all of
// whose operands are of sort C.
func (k *roundTrip) printing(P, C int64, comp int64, phase bool, coeff *int64) *sccp {
	s := &sccp{p: k.p, maxD: 6}
	s.FixG = func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
		switch x := v.(type) {
		case *ssa.Call:
			if isSort(x) {
				a := get(x.Call.Args[0])
				if a.top {
					return cTop, true
				}
				if a.sym == "self" {
					return cInt(int(P)), true
				}
				return cInt(int(C)), true
			}
			if who, ok := k.child(x, get); ok {
				if who == "\x01" {
					return cTop, true
				}
				return cval{sym: "<" + who + ">"}, true
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if fa, ok := x.X.(*ssa.FieldAddr); ok && isNamed(deref(fa.X.Type()), "formula", "PrintSymbols") {
					return cval{sym: "{" + fieldName(deref(fa.X.Type()), fa.Field) + "}"}, true
				}
				if ia, ok := x.X.(*ssa.IndexAddr); ok && coeff != nil {
					if a := get(ia.X); a.sym == "self.coeffs" {
						return cInt(int(*coeff)), true
					}
				}
			}
		case *ssa.Field:
			if isNamed(x.X.Type(), "formula", "PrintSymbols") {
				return cval{sym: "{" + fieldName(x.X.Type(), x.Field) + "}"}, true
			}
		case *ssa.Extract:
			cl, ok := x.Tuple.(*ssa.Call)
			if !ok {
				break
			}
			n := methodName(cl)
			tu := cl.Type().(*types.Tuple)
			if x.Index == tu.Len()-1 && isBool(tu.At(x.Index).Type()) && accessor[n] != nil {
				return cval{v: constant.MakeBool(true)}, true
			}
			if parts := accessor[n]; parts != nil {
				self := false
				for _, a := range cl.Call.Args {
					v := get(a)
					if v.top {
						return cTop, true
					}
					if v.sym == "self" {
						self = true
					}
				}
				if !self || x.Index >= len(parts) {
					return cBottom, true
				}
				switch parts[x.Index] {
				case "phase":
					return cval{v: constant.MakeBool(phase)}, true
				case "comp":
					return cInt(int(comp)), true
				}
				return cval{sym: "self." + parts[x.Index]}, true
			}
		case *ssa.BinOp, *ssa.Slice:
		}
		return stringEval(v, get)
	}
	s.skip = func(g *ssa.Function) bool { return false }
	return s
}

var accessor = map[string][]string{
	"LiteralNamePhase": {"name", "phase"},
	"LitNamePhase":     {"name", "phase"},
	"NotOperand":       {"not"},
	"BinaryLeftRight":  {"left", "right"},
	"NaryOperands":     {"ops"},
	"PBCOps":           {"comp", "rhs", "lits", "coeffs"},
}

func methodName(c *ssa.Call) string {
	if c.Call.IsInvoke() {
		return c.Call.Method.Name()
	}
	if g := staticCallee(&c.Call); g != nil {
		return g.Name()
	}
	return ""
}

// child: the call prints an operand; who is it.
func (k *roundTrip) child(x *ssa.Call, get func(ssa.Value) cval) (string, bool) {
	g := staticCallee(&x.Call)
	if g == nil || !k.R[canonOf(g)] {
		return "", false
	}
	for i, a := range x.Call.Args {
		if i < len(g.Params) && isFormulaType(a.Type()) {
			v := get(a)
			if v.top {
				return "\x01", true
			}
			if v.sym == "self" {
				return "", false
			}
			if v.sym == "" {
				return "?", true
			}
			return v.sym, true
		}
	}
	return "", false
}

func isFormulaType(t types.Type) bool {
	return isNamed(t, "formula", "Formula") || isNamed(t, "formula", "Literal") || isNamed(t, "formula", "Variable")
}

func selfArgs(f *ssa.Function) []cval {
	var args []cval
	done := false
	for _, p := range f.Params {
		if isFormulaType(p.Type()) && !done {
			args = append(args, cval{sym: "self"})
			done = true
		} else {
			args = append(args, cBottom)
		}
	}
	return args
}

// print evaluates N.
func (k *roundTrip) print(P, C, comp int64, phase bool) (*sccp, string) {
	s := k.printing(P, C, comp, phase, nil)
	r := s.Run(k.N, selfArgs(k.N))
	if len(r.Results) == 1 {
		return s, psym(r.Results[0])
	}
	return s, ""
}

// pevent is a place of the printer that prints an operand, with the calls
// that lead to it.
type pevent struct {
	who    string
	frames []pframe
}
type pframe struct {
	r  *sccpResult
	in ssa.Instruction
}

// events visits what the printer can do.
func (k *roundTrip) events(s *sccp, f *ssa.Function, args []cval, frames []pframe, at func(ssa.Instruction, []pframe), ev func(pevent)) {
	if len(frames) > 6 {
		return
	}
	r := s.Run(f, args)
	for _, b := range f.Blocks {
		if !r.Reach[b] {
			continue
		}
		for _, in := range b.Instrs {
			fr := append(append([]pframe{}, frames...), pframe{r, in})
			if at != nil {
				at(in, fr)
			}
			cl, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if who, ok := k.child(cl, r.get); ok {
				ev(pevent{who, fr})
				continue
			}
			g := staticCallee(&cl.Call)
			if g == nil || !inModule(g) || shortPkg(pkgOf(g)) != "formula" || len(canonOf(g).Blocks) == 0 || isSort(cl) {
				continue
			}
			active := canonOf(g) == f
			for _, o := range frames {
				active = active || o.in.Parent() == canonOf(g)
			}
			if active {
				continue
			}
			var as []cval
			for _, a := range cl.Call.Args {
				as = append(as, r.get(a))
			}
			k.events(s, canonOf(g), as, fr, at, ev)
		}
	}
}

// always: every way through the call passes an instruction of hit, within one
// turn of a loop around it.
func always(r *sccpResult, in ssa.Instruction, hit func(ssa.Instruction) bool) bool {
	has := map[*ssa.BasicBlock]bool{}
	for _, b := range in.Parent().Blocks {
		if !r.Reach[b] {
			continue
		}
		for _, i := range b.Instrs {
			if hit(i) {
				has[b] = true
			}
		}
	}
	blk := in.Block()
	if has[blk] {
		return true
	}
	// forward: to the end or round to the call again without a hit
	free := func(from *ssa.BasicBlock, goal func(*ssa.BasicBlock) bool, step func(*ssa.BasicBlock) []*ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		work := step(from)
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if seen[b] || has[b] {
				continue
			}
			seen[b] = true
			if goal(b) || b == from {
				return true
			}
			work = append(work, step(b)...)
		}
		return false
	}
	succs := func(b *ssa.BasicBlock) (out []*ssa.BasicBlock) {
		for _, s := range b.Succs {
			if r.Edges[[2]*ssa.BasicBlock{b, s}] {
				out = append(out, s)
			}
		}
		return
	}
	preds := func(b *ssa.BasicBlock) (out []*ssa.BasicBlock) {
		for _, s := range b.Preds {
			if r.Edges[[2]*ssa.BasicBlock{s, b}] {
				out = append(out, s)
			}
		}
		return
	}
	isEnd := func(b *ssa.BasicBlock) bool {
		_, ret := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		return ret
	}
	after := isEnd(blk) || free(blk, isEnd, succs)
	entry := in.Parent().Blocks[0]
	before := blk == entry || free(blk, func(b *ssa.BasicBlock) bool { return b == entry }, preds)
	return !(after && before)
}

func symbolRead(in ssa.Instruction, name string) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && isNamed(deref(fa.X.Type()), "formula", "PrintSymbols") {
			return fieldName(deref(fa.X.Type()), fa.Field) == name
		}
	case *ssa.Field:
		return isNamed(x.X.Type(), "formula", "PrintSymbols") && fieldName(x.X.Type(), x.Field) == name
	}
	return false
}

func readName(in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && isNamed(deref(fa.X.Type()), "formula", "PrintSymbols") {
			return fieldName(deref(fa.X.Type()), fa.Field)
		}
	case *ssa.Field:
		if isNamed(x.X.Type(), "formula", "PrintSymbols") {
			return fieldName(x.X.Type(), x.Field)
		}
	}
	return ""
}

// ---- the meaning of tokens ----

// getters: the methods of a parse tree node that ask for a token.
func getterOf(g *ssa.Function) (int, bool) {
	if g == nil || len(g.Blocks) != 1 || pkgOf(g) == nil || shortPkg(pkgOf(g)) != "parser" {
		return 0, false
	}
	for _, in := range g.Blocks[0].Instrs {
		if cl, ok := in.(*ssa.Call); ok {
			if n := methodName(cl); n == "GetToken" || n == "GetTokens" {
				for _, a := range cl.Call.Args {
					if n, ok := intConst(a); ok && types.Identical(a.Type().Underlying(), types.Typ[types.Int]) {
						return int(n), true
					}
				}
			}
		}
	}
	return 0, false
}

var builders = map[string]string{"Verum": "SortTrue", "Falsum": "SortFalse", "Not": "SortNot", "And": "SortAnd", "Or": "SortOr", "Implication": "SortImpl", "Equivalence": "SortEquiv", "PBC": "SortPBC", "CC": "SortCC", "Literal": "SortLiteral", "Lit": "SortLiteral", "Variable": "SortLiteral"}

func isBuilder(cl *ssa.Call) string {
	n := methodName(cl)
	if builders[n] == "" {
		return ""
	}
	if cl.Call.IsInvoke() {
		if shortPkg(cl.Call.Method.Pkg()) != "formula" {
			return ""
		}
		return n
	}
	if g := staticCallee(&cl.Call); g != nil && pkgOf(g) != nil && shortPkg(pkgOf(g)) == "formula" && g.Signature.Recv() != nil && isFactoryType(g.Signature.Recv().Type()) {
		return n
	}
	return ""
}

func isFactoryType(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	return ok && strings.Contains(n.Obj().Name(), "Factory")
}

// reading is the evaluation of a listener method when the node has exactly
// the tokens with the given counts.
func (k *roundTrip) reading(tokens map[int]int, more func(v ssa.Value, get func(ssa.Value) cval) (cval, bool)) *sccp {
	s := &sccp{p: k.p, maxD: 5}
	s.FixG = func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
		if more != nil {
			if c, ok := more(v, get); ok {
				return c, true
			}
		}
		cl, ok := v.(*ssa.Call)
		if !ok {
			return stringEval(v, get)
		}
		if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if g, ok := cl.Call.Args[0].(*ssa.Call); ok {
				if t, ok := getterOf(staticCallee(&g.Call)); ok {
					return cInt(tokens[t]), true
				}
			}
		}
		if t, ok := getterOf(staticCallee(&cl.Call)); ok {
			if _, sl := cl.Type().Underlying().(*types.Slice); sl {
				return cval{sym: fmt.Sprintf("all%d", t)}, true
			}
			i := 0
			for _, a := range cl.Call.Args[1:] {
				if n, ok := get(a).Int(); ok {
					i = n
				}
			}
			if i < tokens[t] {
				return cval{nonnil: true}, true
			}
			return cval{nil_: true}, true
		}
		return stringEval(v, get)
	}
	return s
}

// listeners are the methods the walker calls on leaving (entering) a node.
func (k *roundTrip) listeners(prefix string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range k.p.Funcs {
		if pkgOf(f) == nil || shortPkg(pkgOf(f)) != "parser" || f.Signature.Recv() == nil || !strings.HasPrefix(f.Name(), prefix) || f.Name() == "ExitEveryRule" || f.Name() == "ExitRule" {
			continue
		}
		if n, ok := types.Unalias(deref(f.Signature.Recv().Type())).(*types.Named); !ok || strings.HasPrefix(n.Obj().Name(), "Base") || strings.HasSuffix(n.Obj().Name(), "Context") {
			continue
		}
		if len(f.Params) == 2 {
			out = append(out, f)
		}
	}
	return out
}

// built: the calls that build formulas under the assumptions.
func (k *roundTrip) built(s *sccp, f *ssa.Function, visit func(cl *ssa.Call, r *sccpResult, name string)) {
	w := &reachWalk{s: s}
	w.on = func(_ *ssa.Function, ci ssa.CallInstruction, _ []cval, r *sccpResult) bool {
		cl, ok := ci.(*ssa.Call)
		if !ok {
			return false
		}
		if n := isBuilder(cl); n != "" {
			visit(cl, r, n)
			return false
		}
		g := staticCallee(&cl.Call)
		return g != nil && inModule(g) && shortPkg(pkgOf(g)) == "parser"
	}
	w.Run(f, nil, 4)
}

func (k *roundTrip) meaning() {
	k.mean = map[int]string{}
	for t := 1; t <= len(k.lexer.start); t++ {
		got := map[string]bool{}
		for _, f := range k.listeners("Exit") {
			asked := false
			base := map[string]bool{}
			k.built(k.reading(nil, nil), f, func(_ *ssa.Call, _ *sccpResult, n string) { base[n] = true })
			s := k.reading(map[int]int{t: 1}, nil)
			w := &reachWalk{s: s}
			cons := map[string]bool{}
			w.on = func(_ *ssa.Function, ci ssa.CallInstruction, _ []cval, r *sccpResult) bool {
				cl, ok := ci.(*ssa.Call)
				if !ok {
					return false
				}
				if g, ok := getterOf(staticCallee(&cl.Call)); ok && g == t {
					asked = true
				}
				if n := isBuilder(cl); n != "" {
					if n == "PBC" || n == "CC" {
						if v, ok := r.get(cl.Call.Args[0]).Int(); ok {
							cons[k.p.enumName(k.p.Type("formula", "CSort"), fmt.Sprint(v))] = true
						}
					} else if !base[n] {
						got[builders[n]] = true
					}
					return false
				}
				g := staticCallee(&cl.Call)
				if g != nil && isNamed(cl.Type(), "formula", "CSort") {
					sub := &sccp{p: k.p, FixG: s.FixG, maxD: 5}
					if rs := sub.Run(canonOf(g), nil).Results; len(rs) == 1 {
						if v, ok := rs[0].Int(); ok {
							cons[k.p.enumName(k.p.Type("formula", "CSort"), fmt.Sprint(v))] = true
						}
					}
					return inModule(g) && shortPkg(pkgOf(g)) == "parser"
				}
				return g != nil && inModule(g) && shortPkg(pkgOf(g)) == "parser"
			}
			w.at = func(_ *ssa.Function, r *sccpResult) {
				for b := range r.Reach {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && isNamed(st.Val.Type(), "formula", "CSort") {
							if v, ok := r.get(st.Val).Int(); ok {
								cons[k.p.enumName(k.p.Type("formula", "CSort"), fmt.Sprint(v))] = true
							}
						}
					}
				}
			}
			w.Run(f, nil, 4)
			if asked && len(cons) > 0 {
				for n := range cons {
					got[n] = true
				}
			}
		}
		k.mean[t] = strings.Join(sortedKeys(got), "+")
	}
}

// ---- the rules ----

func (k *roundTrip) tokenOf(field string) (int, string) {
	t, ok := k.text[field]
	if !ok {
		return 0, "the default symbol is not known"
	}
	ls, ok := k.lexer.lex(t)
	if !ok || len(ls) != 1 {
		return 0, fmt.Sprintf("the text %q is not one token of the lexer", t)
	}
	return ls[0].tok, ""
}

func (k *roundTrip) symbolRule() {
	k.field = map[string]string{}
	pos := k.p.pos(k.N.Pos())
	check := func(what, field string, want string) {
		t, why := k.tokenOf(field)
		if why != "" {
			if _, known := k.text[field]; known {
				k.c.Bad("symbol", what, pos, field+": "+why)
			} else {
				k.opened("%s: %s", what, why)
			}
			return
		}
		k.toks[field] = t
		k.field[want] = field
		m := k.mean[t]
		if want == "LBR" {
			return
		}
		if m == "" {
			k.opened("the meaning of token %d (%s) was not found in the listener", t, field)
			return
		}
		k.c.Cond(m == want, "symbol", what, pos, fmt.Sprintf("%s prints as %s (%q), which is read as %s", want, field, strings.TrimSpace(k.text[field]), m))
	}
	// fields read for a sort, brackets left aside
	fields := func(P, C, comp int64, phase bool) []string {
		got := map[string]bool{}
		s, _ := k.print(P, C, comp, phase)
		k.events(s, k.N, selfArgs(k.N), nil, func(in ssa.Instruction, _ []pframe) {
			if n := readName(in); n != "" && n != "LeftBracket" && n != "RightBracket" {
				got[n] = true
			}
		}, func(pevent) {})
		return sortedKeys(got)
	}
	lit := k.sorts["SortLiteral"]
	for _, n := range sortedKeys(k.sorts) {
		if n == "SortCC" || n == "SortPBC" {
			for _, cn := range sortedKeys(k.comps) {
				var fs []string
				for _, f := range fields(k.sorts[n], lit, k.comps[cn], true) {
					if f != "Multiplication" && f != "Plus" && f != "Minus" {
						fs = append(fs, f)
					}
				}
				if len(fs) != 1 {
					k.opened("%s %s: symbols %v", n, cn, fs)
					continue
				}
				check(n+" "+cn, fs[0], cn)
			}
			continue
		}
		if n == "SortLiteral" {
			continue
		}
		fs := fields(k.sorts[n], lit, 0, true)
		if len(fs) != 1 {
			k.opened("%s: symbols %v", n, fs)
			continue
		}
		check(n, fs[0], n)
	}
	for _, b := range []string{"LeftBracket", "RightBracket", "Plus", "Multiplication"} {
		check(b, b, "LBR")
	}
	// the brackets are what the grammar takes as brackets: some rule is
	// left bracket, any rule, right bracket
	ok := false
	for r := range k.gram.start {
		for _, e := range k.gram.uses(r, k.toks["LeftBracket"]) {
			k.gram.within(e.to, 1, func(_ int, t *atnEdge, in []int) {
				if t != nil && len(in) == 1 && k.gram.accepts(*t, k.toks["RightBracket"]) && k.gram.units(in[0])[k.owner("SortEquiv")] {
					ok = true
				}
			})
		}
	}
	k.c.Cond(ok, "symbol", "brackets", pos, fmt.Sprintf("no rule of the grammar reads %q, any formula, %q", k.text["LeftBracket"], k.text["RightBracket"]))
}

// owner: the rule of the grammar that reads a sort.
func (k *roundTrip) owner(sortName string) int {
	f := k.field[sortName]
	switch sortName {
	case "SortCC", "SortPBC":
		f = k.field["EQ"]
	case "SortLiteral":
		ls, ok := k.lexer.lex("a")
		if !ok || len(ls) != 1 {
			return -1
		}
		return k.first(ls[0].tok)
	}
	t, ok := k.toks[f]
	if f == "" || !ok {
		return -1
	}
	return k.first(t)
}

func (k *roundTrip) first(t int) int {
	for _, r := range k.gram.rulesOf(t) {
		return r
	}
	return -1
}

func (k *roundTrip) textRule() {
	pos := k.p.pos(k.p.Func("formula", "DefaultSymbols").Pos())
	names := []string{"a", "Z9_", "x#1", "9a", "_b", "@c0"}
	lits := []string{"~a", "~@c0", "~9"}
	nums := []string{"1", "-12", "0"}
	lone := func(s string) []lexeme { l, _ := k.lexer.lex(s); return l }
	try := func(field string, before, after []string) {
		t, ok := k.toks[field]
		if !ok {
			return
		}
		bad := ""
		n := 0
		for _, b := range before {
			for _, a := range after {
				n++
				want := append(append(append([]lexeme{}, lone(b)...), lexeme{t, ""}), lone(a)...)
				got, ok := k.lexer.lex(b + k.text[field] + a)
				same := ok && len(got) == len(want)
				for i := range got {
					if same && (got[i].tok != want[i].tok || want[i].text != "" && got[i].text != want[i].text) {
						same = false
					}
				}
				if !same && bad == "" {
					bad = fmt.Sprintf("%q is not read as %q, the symbol, %q", b+k.text[field]+a, b, a)
				}
			}
		}
		k.c.Cond(bad == "", "text", field, pos, bad)
	}
	lb, rb := k.text["LeftBracket"], k.text["RightBracket"]
	tr := k.text["Verum"]
	ends := append(append(append([]string{}, names...), lits...), rb, tr, "1")
	starts := append(append(append([]string{}, names...), lits...), lb, tr, "-1")
	for _, s := range []string{"SortImpl", "SortEquiv", "SortAnd", "SortOr"} {
		if f := k.field[s]; f != "" {
			try(f, ends, starts)
		}
	}
	for _, cn := range sortedKeys(k.comps) {
		if f := k.field[cn]; f != "" {
			try(f, append(append([]string{}, names...), lits...), nums)
		}
	}
	try("Plus", append(append([]string{}, names...), lits...), append(append(append([]string{}, names...), lits...), nums...))
	try("Multiplication", nums, append(append([]string{}, names...), lits...))
	try("LeftBracket", []string{"", lb, k.text["Not"]}, starts)
	try("RightBracket", ends, []string{"", rb})
	if f := k.field["SortNot"]; f != "" {
		try(f, []string{"", lb}, []string{lb})
	}
	for _, f := range []string{"Verum", "Falsum"} {
		try(f, []string{"", lb}, []string{"", rb})
	}
	// a literal is one token, with and without its sign
	for _, n := range append(append(append([]string{}, names...), lits...), "@RESERVED_CNF_0") {
		ls, ok := k.lexer.lex(n)
		k.c.Cond(ok && len(ls) == 1 && ls[0].tok == lone("a")[0].tok, "text", "literal "+n, k.p.pos(k.N.Pos()), fmt.Sprintf("%q is not one literal token", n))
	}
}

// shapes: operands, order and brackets.
func (k *roundTrip) shapes() {
	lit := k.sorts["SortLiteral"]
	for _, P := range []string{"SortNot", "SortImpl", "SortEquiv", "SortAnd", "SortOr"} {
		owner := k.owner(P)
		tok := k.toks[k.field[P]]
		if owner < 0 || tok == 0 {
			k.opened("%s: no rule of the grammar found", P)
			continue
		}
		left, right := k.gram.sides(owner, tok)
		for _, C := range sortedKeys(k.sorts) {
			if P == "SortNot" && (C == "SortNot" || C == "SortTrue" || C == "SortFalse") {
				continue // the factory does not build these
			}
			s, sym := k.print(k.sorts[P], k.sorts[C], 0, true)
			evs := 0
			k.events(s, k.N, selfArgs(k.N), nil, nil, func(e pevent) {
				evs++
				side := "operand"
				switch {
				case strings.HasSuffix(e.who, ".left"):
					side = "left"
				case strings.HasSuffix(e.who, ".right"):
					side = "right"
				}
				in := e.frames[len(e.frames)-1].in
				key := P + " " + side + " " + C
				br := false
				for _, fr := range e.frames {
					if always(fr.r, fr.in, func(i ssa.Instruction) bool { return symbolRead(i, "LeftBracket") }) &&
						always(fr.r, fr.in, func(i ssa.Instruction) bool { return symbolRead(i, "RightBracket") }) {
						br = true
					}
				}
				if br || P == C && (P == "SortAnd" || P == "SortOr") {
					k.c.Ok("bracket", key, k.p.pos(in.Pos()))
					return
				}
				o := k.owner(C)
				if o < 0 {
					k.opened("%s: no rule of the grammar found", C)
					return
				}
				fits := func(m map[int]bool) bool {
					for r := range m {
						if k.gram.units(r)[o] {
							return true
						}
					}
					return false
				}
				ok := true
				switch {
				case P == "SortNot":
					ok = fits(right)
				case side == "left":
					ok = fits(left)
				case side == "right":
					ok = fits(right)
				default:
					ok = fits(left) && fits(right)
				}
				k.c.Cond(ok, "bracket", key, k.p.pos(in.Pos()), fmt.Sprintf("in %s an operand of sort %s is printed without brackets here, and the grammar does not read it there as one operand", shortFn(in.Parent()), C))
			})
			if evs == 0 {
				k.opened("%s with operands %s: no operand printed", P, C)
			}
			// the whole of it, where the printer just concatenates
			if sym == "" || strings.Contains(sym, "\x00") || strings.Contains(sym, "?") {
				continue
			}
			f := k.field[P]
			var ok bool
			opt := func(a string) []string { return []string{"<" + a + ">", "{LeftBracket}<" + a + ">{RightBracket}"} }
			switch P {
			case "SortNot":
				for _, a := range opt("self.not") {
					ok = ok || sym == "{"+f+"}"+a
				}
			case "SortImpl", "SortEquiv":
				for _, a := range opt("self.left") {
					for _, b := range opt("self.right") {
						ok = ok || sym == a+"{"+f+"}"+b
					}
				}
			default:
				continue
			}
			k.c.Cond(ok, "operand", P+" of "+C, k.p.pos(k.N.Pos()), "it is printed as "+sym)
		}
	}
	// a literal
	for _, ph := range []bool{true, false} {
		_, sym := k.print(lit, lit, 0, ph)
		if sym == "" || strings.Contains(sym, "\x00") {
			k.opened("a literal with phase %v: its text is not known", ph)
			continue
		}
		want := "self.name"
		if !ph {
			want = "{" + k.field["SortNot"] + "}" + want
		}
		k.c.Cond(sym == want, "name", fmt.Sprintf("printed with phase %v", ph), k.p.pos(k.N.Pos()), "a literal with phase "+fmt.Sprint(ph)+" is printed as "+sym)
	}
	k.readOrder()
}

func shortFn(f *ssa.Function) string {
	n := f.Name()
	if r := f.Signature.Recv(); r != nil {
		if nm, ok := types.Unalias(deref(r.Type())).(*types.Named); ok {
			n = nm.Obj().Name() + "." + n
		}
	}
	return n
}

// readOrder: the listener pops the right operand first.
func (k *roundTrip) readOrder() {
	for _, f := range k.listeners("Exit") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if n := isBuilder(cl); n != "Implication" && n != "Equivalence" {
					continue
				}
				args := cl.Call.Args
				if !cl.Call.IsInvoke() {
					args = args[1:]
				}
				l, r := popOf(args[0]), popOf(args[1])
				if l == nil || r == nil || l == r {
					k.opened("%s: where the operands come from is not seen", shortFn(f))
					continue
				}
				rFirst := r.Block() == l.Block() && sameOrBefore(r, l) || r.Block() != l.Block() && r.Block().Dominates(l.Block())
				k.c.Cond(rFirst, "operand", "read by "+shortFn(f), k.p.pos(cl.Pos()), "the operand taken from the stack first, the right one, becomes the left one")
			}
		}
	}
}

// popOf: the call that took the value from the stack.
func popOf(v ssa.Value) *ssa.Call {
	for d := 0; d < 8; d++ {
		switch x := v.(type) {
		case *ssa.Call:
			if g := staticCallee(&x.Call); g != nil && inModule(g) && shortPkg(pkgOf(g)) == "parser" {
				return x
			}
			return nil
		case *ssa.Field:
			v = x.X
		case *ssa.Extract:
			v = x.Tuple
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Alloc:
			s := soleStore(x)
			if s == nil {
				return nil
			}
			v = s
		default:
			return nil
		}
	}
	return nil
}

// pbc: coefficients and literals.
func (k *roundTrip) pbc() {
	lit := k.sorts["SortLiteral"]
	for _, P := range []string{"SortCC", "SortPBC"} {
		for _, co := range []int64{1, 2, -1, 0} {
			s := k.printing(k.sorts[P], lit, 0, true, &co)
			k.events(s, k.N, selfArgs(k.N), nil, nil, func(e pevent) {
				if !strings.HasPrefix(e.who, "self.lits") {
					return
				}
				fr := e.frames[len(e.frames)-1]
				in := fr.in
				key := fmt.Sprintf("%s printed with %d at %s", P, co, indexTerm(in))
				isCo := func(i ssa.Instruction) bool { return k.coeffPrint(fr.r, i) != nil }
				printed := always(fr.r, in, isCo)
				if co == 1 {
					return
				}
				k.c.Cond(printed, "coefficient", key, k.p.pos(in.Pos()), fmt.Sprintf("the literal is printed without its coefficient when that is %d", co))
				mul := always(fr.r, in, func(i ssa.Instruction) bool { return printsSym(fr.r, i, "{Multiplication}") })
				if !mul && printed {
					k.opened("%s: no %s seen between coefficient and literal", key, "Multiplication")
				}
				// the same index
				li := litIndex(in)
				for _, b := range in.Parent().Blocks {
					if b != in.Block() {
						continue
					}
					for _, i := range b.Instrs {
						if ci := k.coeffPrint(fr.r, i); ci != nil && li != nil {
							k.c.Cond(term(ci, 0) == term(li, 0), "coefficient", key+" index", k.p.pos(i.Pos()), fmt.Sprintf("the literal at %s is printed with the coefficient at %s", term(li, 0), term(ci, 0)))
						}
					}
				}
			})
		}
	}
}

func indexTerm(in ssa.Instruction) string {
	if i := litIndex(in); i != nil {
		if _, ok := i.(*ssa.BinOp); ok {
			return "the last"
		}
	}
	return "a place"
}

func litIndex(in ssa.Instruction) ssa.Value {
	cl, ok := in.(*ssa.Call)
	if !ok || len(cl.Call.Args) == 0 {
		return nil
	}
	for _, a := range cl.Call.Args {
		if !isFormulaType(a.Type()) {
			continue
		}
		if u, ok := strip(a).(*ssa.UnOp); ok {
			if ia, ok := u.X.(*ssa.IndexAddr); ok {
				return ia.Index
			}
		}
	}
	return nil
}

// coeffPrint: the instruction reads a coefficient for more than comparing it;
// its index.
func (k *roundTrip) coeffPrint(r *sccpResult, in ssa.Instruction) ssa.Value {
	u, ok := in.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok || r.get(ia.X).sym != "self.coeffs" {
		return nil
	}
	for _, ref := range *u.Referrers() {
		if !r.Reach[ref.Block()] {
			continue
		}
		switch x := ref.(type) {
		case *ssa.BinOp, *ssa.If, *ssa.DebugRef:
		case *ssa.Phi:
			_ = x
			return ia.Index
		default:
			return ia.Index
		}
	}
	return nil
}

func printsSym(r *sccpResult, in ssa.Instruction, sym string) bool {
	switch x := in.(type) {
	case *ssa.MakeInterface:
		return r.get(x.X).sym == sym
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if r.get(a).sym == sym {
				return true
			}
		}
	case *ssa.BinOp:
		return r.get(x.X).sym == sym || r.get(x.Y).sym == sym
	}
	return false
}

// pbcRead: what the listener makes of the parts of a product.
func (k *roundTrip) pbcRead() {
	lone := func(s string) int { l, _ := k.lexer.lex(s); return l[0].tok }
	LIT, NUM := lone("a"), lone("1")
	for _, f := range k.listeners("Exit") {
		isMul := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if key, _ := addrFieldKey(st.Addr, 0); strings.HasSuffix(key, ".coefficients") {
						isMul = true
					}
				}
			}
		}
		if !isMul || f.Name() != "ExitMul" {
			continue
		}
		for _, cs := range []struct {
			lit, num int
			name     string
			coeff    string
		}{{1, 0, "L0", "1"}, {0, 1, "N0", "1"}, {1, 1, "L0", "num N0"}, {0, 2, "N1", "num N0"}} {
			more := func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
				cl, ok := v.(*ssa.Call)
				if !ok {
					return cBottom, false
				}
				if methodName(cl) == "GetText" {
					if rc, ok := cl.Call.Value.(*ssa.Call); ok && cl.Call.IsInvoke() {
						if t, ok := getterOf(staticCallee(&rc.Call)); ok {
							i := 0
							for _, a := range rc.Call.Args[1:] {
								n, ok := get(a).Int()
								if !ok {
									return cBottom, true
								}
								i = n
							}
							switch t {
							case LIT:
								return cval{sym: fmt.Sprintf("L%d", i)}, true
							case NUM:
								return cval{sym: fmt.Sprintf("N%d", i)}, true
							}
						}
					}
					return cBottom, true
				}
				if g := staticCallee(&cl.Call); g != nil && isInteger(cl.Type()) && inModule(g) && shortPkg(pkgOf(g)) == "parser" {
					for _, a := range cl.Call.Args {
						if v := get(a); v.top {
							return cTop, true
						} else if v.sym != "" && isString(a.Type()) {
							return cval{sym: "num " + v.sym}, true
						}
					}
				}
				return cBottom, false
			}
			key := fmt.Sprintf("read with %d literal and %d numbers", cs.lit, cs.num)
			s := k.reading(map[int]int{LIT: cs.lit, NUM: cs.num}, more)
			r := s.Run(f, nil)
			coeffs, names := map[string]bool{}, map[string]bool{}
			for _, b := range f.Blocks {
				if !r.Reach[b] {
					continue
				}
				for _, in := range b.Instrs {
					cl, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(cl.Call.Args) == 2 {
						for _, e := range varargs(cl.Call.Args[1]) {
							if isInteger(e.Type()) && !isFormulaType(e.Type()) {
								coeffs[psym(r.get(e))] = true
							}
						}
					}
				}
			}
			k.built(s, f, func(cl *ssa.Call, r *sccpResult, n string) {
				if builders[n] != "SortLiteral" {
					return
				}
				for _, a := range cl.Call.Args {
					if isString(a.Type()) {
						names[nameRoot(a, r, 0)] = true
					}
				}
			})
			got := strings.Join(sortedKeys(coeffs), "+")
			if got == "" || strings.Contains(got, "++") || len(coeffs) == 1 && coeffs[""] {
				k.opened("%s: the coefficient is not known", key)
			} else {
				k.c.Cond(got == cs.coeff, "coefficient", key, k.p.pos(f.Pos()), fmt.Sprintf("the coefficient is %s, not %s", got, cs.coeff))
			}
			gn := strings.Join(sortedKeys(names), "+")
			if gn == "" {
				k.opened("%s: the name is not known", key)
			} else {
				k.c.Cond(gn == cs.name, "coefficient", key+" name", k.p.pos(f.Pos()), fmt.Sprintf("the name is taken from %s, not %s", gn, cs.name))
			}
		}
	}
}

// nameRoot: the text a name was cut from.
func nameRoot(v ssa.Value, r *sccpResult, d int) string {
	if s := r.get(v).sym; s != "" {
		if i := strings.IndexByte(s, '['); i >= 0 {
			s = s[:i]
		}
		return s
	}
	if d > 6 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.Slice:
		return nameRoot(x.X, r, d+1)
	case *ssa.Extract:
		return nameRoot(x.Tuple, r, d+1)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if isString(a.Type()) {
				if s := nameRoot(a, r, d+1); s != "" {
					return s
				}
			}
		}
	}
	return ""
}

// signCase evaluates a function in which a text starts or does not start with
// a sign.
func (k *roundTrip) signCase(sign string, has bool, text func(v ssa.Value, get func(ssa.Value) cval) (string, bool)) *sccp {
	s := &sccp{p: k.p, maxD: 5}
	s.FixG = func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
		if n, ok := text(v, get); ok {
			return cval{sym: n}, true
		}
		switch x := v.(type) {
		case *ssa.Call:
			g := staticCallee(&x.Call)
			if g == nil || pkgOf(g) == nil || pkgOf(g).Path() != "strings" || len(x.Call.Args) != 2 {
				break
			}
			a, b := get(x.Call.Args[0]), get(x.Call.Args[1])
			if a.top || b.top {
				return cTop, true
			}
			if a.sym == "" || psym(b) != sign || strings.Contains(a.sym, "[") {
				break
			}
			switch g.Name() {
			case "HasPrefix", "Contains":
				return cval{v: constant.MakeBool(has)}, true
			case "TrimPrefix", "TrimLeft":
				if has {
					return cval{sym: fmt.Sprintf("%s[%d:]", a.sym, len(sign))}, true
				}
				return a, true
			}
		case *ssa.Extract:
			cl, ok := x.Tuple.(*ssa.Call)
			if !ok {
				break
			}
			g := staticCallee(&cl.Call)
			if g == nil || pkgOf(g) == nil || pkgOf(g).Path() != "strings" || g.Name() != "CutPrefix" {
				break
			}
			a, b := get(cl.Call.Args[0]), get(cl.Call.Args[1])
			if a.top || b.top {
				return cTop, true
			}
			if a.sym == "" || psym(b) != sign {
				break
			}
			if x.Index == 1 {
				return cval{v: constant.MakeBool(has)}, true
			}
			if has {
				return cval{sym: fmt.Sprintf("%s[%d:]", a.sym, len(sign))}, true
			}
			return a, true
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				break
			}
			for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				lk, ok := o[0].(*ssa.Lookup)
				if !ok {
					if ix, ok2 := o[0].(*ssa.Index); ok2 && isString(ix.X.Type()) {
						a, i := get(ix.X), get(ix.Index)
						if a.top || i.top {
							return cTop, true
						}
						if n, ok := i.Int(); ok && n == 0 && a.sym != "" {
							if c, ok := get(o[1]).Int(); ok && len(sign) == 1 && c == int(sign[0]) {
								return cval{v: constant.MakeBool(has == (x.Op == token.EQL))}, true
							}
						}
					}
					continue
				}
				a, i := get(lk.X), get(lk.Index)
				if a.top || i.top {
					return cTop, true
				}
				if n, ok := i.Int(); !ok || n != 0 || a.sym == "" {
					continue
				}
				if c, ok := get(o[1]).Int(); ok && len(sign) == 1 && c == int(sign[0]) {
					return cval{v: constant.MakeBool(has == (x.Op == token.EQL))}, true
				}
			}
		}
		return stringEval(v, get)
	}
	return s
}

// litsMade collects name and phase of the literals built under s.
func litsMade(p *Program, s *sccp, f *ssa.Function, args []cval, pkg string) map[string]bool {
	out := map[string]bool{}
	w := &reachWalk{s: s}
	w.on = func(_ *ssa.Function, ci ssa.CallInstruction, _ []cval, r *sccpResult) bool {
		cl, ok := ci.(*ssa.Call)
		if !ok {
			return false
		}
		n := isBuilder(cl)
		if builders[n] == "SortLiteral" {
			name, phase := "", "true"
			for _, a := range cl.Call.Args {
				if isString(a.Type()) {
					name = psym(r.get(a))
				}
				if isBool(a.Type()) {
					phase = "?"
					if v := r.get(a).v; v != nil {
						phase = v.ExactString()
					}
				}
			}
			out[name+" "+phase] = true
			return false
		}
		g := staticCallee(&cl.Call)
		return n == "" && g != nil && inModule(g) && shortPkg(pkgOf(g)) == pkg
	}
	w.Run(f, args, 4)
	return out
}

func (k *roundTrip) judgeSign(rule, where, pos string, got map[string]bool, sign, text string, has bool) {
	want := text + " true"
	if has {
		want = fmt.Sprintf("%s[%d:] false", text, len(sign))
	}
	for _, g := range sortedKeys(got) {
		key := fmt.Sprintf("%s with%s %q", where, map[bool]string{true: "", false: "out"}[has], sign)
		if strings.HasPrefix(g, " ") || strings.HasSuffix(g, "?") || strings.Contains(g, "\x00") && !strings.Contains(want, "\x00") {
			k.opened("%s: name or phase not known (%q)", key, g)
			continue
		}
		k.c.Cond(g == want, rule, key, pos, fmt.Sprintf("the literal made is %s, not %s", strings.ReplaceAll(g, "\x00", "…"), strings.ReplaceAll(want, "\x00", "…")))
	}
}

// names: the sign of literals in the parser, and generated names.
func (k *roundTrip) names() {
	sign := strings.TrimSpace(k.text[k.field["SortNot"]])
	lone := func(s string) int { l, _ := k.lexer.lex(s); return l[0].tok }
	LIT := lone("a")
	for _, f := range k.listeners("Exit") {
		for _, has := range []bool{true, false} {
			s := k.signCase(sign, has, func(v ssa.Value, _ func(ssa.Value) cval) (string, bool) {
				if cl, ok := v.(*ssa.Call); ok && methodName(cl) == "GetText" {
					return "text", true
				}
				return "", false
			})
			inner := s.FixG
			rd := k.reading(map[int]int{LIT: 1}, nil)
			s.FixG = func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
				if cl, ok := v.(*ssa.Call); ok {
					if _, ok := getterOf(staticCallee(&cl.Call)); ok {
						return rd.FixG(v, get)
					}
					if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						return rd.FixG(v, get)
					}
				}
				return inner(v, get)
			}
			k.judgeSign("name", "read by "+shortFn(f), k.p.pos(f.Pos()), litsMade(k.p, s, f, nil, "parser"), sign, "text", has)
		}
	}
	// prefixes of generated names
	seen := map[string]bool{}
	for _, f := range k.p.Funcs {
		if pkgOf(f) == nil || shortPkg(pkgOf(f)) == "parser" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					kc, ok := (*op).(*ssa.Const)
					if !ok || kc.Value == nil || kc.Value.Kind() != constant.String {
						continue
					}
					t := constant.StringVal(kc.Value)
					if !strings.HasPrefix(t, "@") || len(t) < 2 || seen[t] {
						continue
					}
					seen[t] = true
					name := strings.NewReplacer("%d", "0", "%s", "a", "%v", "0").Replace(t) + "0"
					ls, ok := k.lexer.lex(name)
					k.c.Cond(ok && len(ls) == 1 && ls[0].tok == LIT, "name", "generated "+t, k.p.pos(in.Pos()), fmt.Sprintf("a name %q generated here is not read back as one name", name))
				}
			}
		}
	}
}

// linesRule: the writer splits conjunctions only, the reader conjoins.
func (k *roundTrip) linesRule() {
	for _, f := range k.p.Funcs {
		if pkgOf(f) == nil || shortPkg(pkgOf(f)) != "io" || len(f.Params) == 0 {
			continue
		}
		// writer: prints formulas
		prints := false
		reads := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(*ssa.Call); ok {
					if g := staticCallee(&cl.Call); g != nil && k.R[canonOf(g)] {
						prints = true
					}
					if isBuilder(cl) != "" && (isBuilder(cl) == "And" || isBuilder(cl) == "Or") {
						reads = true
					}
				}
			}
		}
		if prints {
			for _, n := range sortedKeys(k.sorts) {
				s := &sccp{p: k.p, maxD: 3}
				s.FixG = func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
					if cl, ok := v.(*ssa.Call); ok && isSort(cl) {
						if get(cl.Call.Args[0]).sym == "self" {
							return cInt(int(k.sorts[n])), true
						}
					}
					return cBottom, false
				}
				r := s.Run(f, selfArgs(f))
				for b := range r.Reach {
					for _, in := range b.Instrs {
						cl, ok := in.(*ssa.Call)
						if !ok || (methodName(cl) != "Operands" && methodName(cl) != "NaryOperands") {
							continue
						}
						k.c.Cond(n == "SortAnd", "lines", shortFn(f)+" "+n, k.p.pos(cl.Pos()), "the operands of a formula of sort "+n+" are written as lines of their own, which are read as a conjunction")
					}
				}
			}
		}
		if reads && len(k.p.callsOf(f)) > 0 || reads {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					cl, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					n := isBuilder(cl)
					if n != "And" && n != "Or" {
						continue
					}
					// of the formulas parsed from the lines
					src := ""
					args := cl.Call.Args
					if len(args) > 0 {
						if ex, ok := args[len(args)-1].(*ssa.Extract); ok {
							if g, ok := ex.Tuple.(*ssa.Call); ok {
								src = methodName(g)
							}
						}
					}
					if strings.HasPrefix(src, "ReadFormulas") {
						k.c.Cond(n == "And", "lines", "read by "+shortFn(f), k.p.pos(cl.Pos()), "the lines of a file are not conjoined")
					}
				}
			}
		}
	}
}

// dimacsWrite: sign, number, counts.
func (k *roundTrip) dimacsWrite() {
	for _, f := range k.p.Funcs {
		if pkgOf(f) == nil || shortPkg(pkgOf(f)) != "io" {
			continue
		}
		// the function that fills the table of numbers
		var table ssa.Value
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !isFormulaType(mu.Key.Type()) || !isInteger(mu.Value.Type()) {
					continue
				}
				table = mu.Map
				pos := k.p.pos(mu.Pos())
				// the number is the position plus one, or the size plus one
				v := mu.Value
				if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD {
					base, off := bo.X, bo.Y
					n, isC := intConst(off)
					if !isC {
						base, off = bo.Y, bo.X
						n, isC = intConst(off)
					}
					if isC {
						key := k.keyIndex(mu.Key)
						lenOf := isLenOf(base, mu.Map)
						if key == base || lenOf {
							k.c.Cond(n == 1, "dimacs", shortFn(f)+" numbers", pos, fmt.Sprintf("the variables are numbered from %d", n))
							continue
						}
						if ph, ok := base.(*ssa.Phi); ok && key != nil && v == key && len(ph.Edges) == 2 {
							// the position itself (a range loop counts from -1)
							k.c.Bad("dimacs", shortFn(f)+" numbers", pos, "the variables are numbered from 0, which ends a clause")
							continue
						}
						// counts up a variable of its own
					}
				}
				if v == k.keyIndex(mu.Key) || isLenOf(v, mu.Map) {
					k.c.Bad("dimacs", shortFn(f)+" numbers", pos, "the variables are numbered from 0, which ends a clause")
					continue
				}
				k.opened("%s: how variables are numbered is not seen", shortFn(f))
			}
		}
		if table == nil {
			continue
		}
		texts := map[bool]map[string]bool{}
		for _, ph := range []bool{true, false} {
			s := &sccp{p: k.p, maxD: 3}
			s.FixG = func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
				switch x := v.(type) {
				case *ssa.Extract:
					cl, ok := x.Tuple.(*ssa.Call)
					if lk, isL := x.Tuple.(*ssa.Lookup); isL && x.Index == 0 && lk.X == table {
						return cval{sym: "#"}, true
					}
					if !ok {
						break
					}
					if n := methodName(cl); n == "LitNamePhase" || n == "LiteralNamePhase" {
						if x.Index == 1 {
							return cval{v: constant.MakeBool(ph)}, true
						}
						if x.Index == 2 {
							return cval{v: constant.MakeBool(true)}, true
						}
					}
				case *ssa.Call:
					if methodName(x) == "IsPos" {
						return cval{v: constant.MakeBool(ph)}, true
					}
					if methodName(x) == "IsNeg" {
						return cval{v: constant.MakeBool(!ph)}, true
					}
				case *ssa.Lookup:
					if x.X == table && !x.CommaOk {
						return cval{sym: "#"}, true
					}
				}
				return stringEval(v, get)
			}
			texts[ph] = map[string]bool{}
			w := &reachWalk{s: s}
			w.on = func(*ssa.Function, ssa.CallInstruction, []cval, *sccpResult) bool { return false }
			w.at = func(_ *ssa.Function, r *sccpResult) {
				for b := range r.Reach {
					for _, in := range b.Instrs {
						if v, ok := in.(ssa.Value); ok {
							// outermost strings only
							if sy := r.get(v).sym; isString(v.Type()) && strings.Contains(sy, "#") && !feeds(v, r) {
								texts[ph][sy] = true
							}
						}
					}
				}
			}
			w.Run(f, nil, 1)
		}
		norm := func(s string) string {
			s = strings.TrimSpace(strings.NewReplacer("{", "", "}", "").Replace(s))
			s = strings.TrimSuffix(s, " 0")
			return s
		}
		pos := k.p.pos(f.Pos())
		for _, ph := range []bool{true, false} {
			want := "#"
			if !ph {
				want = "-#"
			}
			if len(texts[ph]) == 0 {
				k.opened("%s: the text of a literal with phase %v is not seen", shortFn(f), ph)
			}
			for _, t := range sortedKeys(texts[ph]) {
				n := norm(t)
				if n != "#" && n != "-#" {
					k.opened("%s: text %q of a literal", shortFn(f), t)
					continue
				}
				k.c.Cond(n == want, "dimacs", fmt.Sprintf("%s phase %v", shortFn(f), ph), pos, fmt.Sprintf("a literal with phase %v is written as %s", ph, n))
			}
		}
		k.sameLiteral(f, table)
		k.clauseCount(f)
	}
}

// feeds: the value is part of a longer known string.
func feeds(v ssa.Value, r *sccpResult) bool {
	for _, ref := range *v.Referrers() {
		if !r.Reach[ref.Block()] {
			continue
		}
		switch x := ref.(type) {
		case *ssa.BinOp:
			if isString(x.Type()) && strings.Contains(r.get(x).sym, "#") {
				return true
			}
		case *ssa.Phi:
			if strings.Contains(r.get(x).sym, "#") {
				return true
			}
		case *ssa.MakeInterface:
			return true
		}
	}
	return false
}

// keyIndex: the position in its slice a value was read from.
func (k *roundTrip) keyIndex(v ssa.Value) ssa.Value {
	if u, ok := strip(v).(*ssa.UnOp); ok {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			return ia.Index
		}
	}
	return nil
}

// sameLiteral: number and sign are those of one literal.
func (k *roundTrip) sameLiteral(f *ssa.Function, table ssa.Value) {
	var lits []ssa.Value
	var nums []ssa.Value
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if n := methodName(x); n == "LitNamePhase" || n == "LiteralNamePhase" || n == "IsPos" || n == "IsNeg" {
					for _, a := range x.Call.Args {
						if isFormulaType(a.Type()) {
							lits = append(lits, strip(a))
						}
					}
				}
			case *ssa.Lookup:
				if x.X != table {
					continue
				}
				v := strip(x.Index)
				if cl, ok := v.(*ssa.Call); ok && methodName(cl) == "Variable" && len(cl.Call.Args) > 0 {
					nums = append(nums, strip(cl.Call.Args[0]))
				}
			}
		}
	}
	if len(lits) == 0 || len(nums) == 0 {
		k.opened("%s: number or sign of a literal not seen", shortFn(f))
		return
	}
	for _, n := range nums {
		ok := false
		for _, l := range lits {
			ok = ok || n == l || term(n, 0) == term(l, 0)
		}
		k.c.Cond(ok, "dimacs", shortFn(f)+" one literal", k.p.pos(n.Pos()), "the number is looked up for another literal than the sign")
	}
}

// clauseCount: the announced clauses are the ones written, by sort.
func (k *roundTrip) clauseCount(f *ssa.Function) {
	pos := k.p.pos(f.Pos())
	for _, n := range sortedKeys(k.sorts) {
		switch n {
		case "SortTrue", "SortFalse", "SortLiteral", "SortAnd", "SortOr":
		default:
			continue // not a CNF
		}
		s := &sccp{p: k.p, maxD: 3}
		s.FixG = func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
			cl, ok := v.(*ssa.Call)
			if !ok {
				return cBottom, false
			}
			if isSort(cl) && get(cl.Call.Args[0]).sym == "self" {
				return cInt(int(k.sorts[n])), true
			}
			if methodName(cl) == "IsCNF" {
				return cval{v: constant.MakeBool(true)}, true
			}
			return cBottom, false
		}
		r := s.Run(f, selfArgs(f))
		split, whole := false, false
		for b := range r.Reach {
			for _, in := range b.Instrs {
				cl, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if nm := methodName(cl); nm == "Operands" || nm == "NaryOperands" {
					split = true
				}
				if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(cl.Call.Args) == 2 {
					for _, e := range varargs(cl.Call.Args[1]) {
						if r.get(e).sym == "self" {
							whole = true
						}
					}
				}
				// the header
				if g := staticCallee(&cl.Call); g != nil && g.Name() == "Fprintf" && len(cl.Call.Args) == 3 {
					kc, ok := cl.Call.Args[1].(*ssa.Const)
					if !ok || !strings.HasPrefix(constant.StringVal(kc.Value), "p cnf %d %d") {
						continue
					}
					va := varargs(cl.Call.Args[2])
					if len(va) != 2 {
						continue
					}
					un := func(v ssa.Value) ssa.Value {
						if mi, ok := v.(*ssa.MakeInterface); ok {
							return mi.X
						}
						return v
					}
					nv, nc := un(va[0]), un(va[1])
					if n == "SortAnd" {
						c, ok := nv.(*ssa.Call)
						good := ok
						if ok {
							b, isB := c.Call.Value.(*ssa.Builtin)
							good = isB && b.Name() == "len"
						}
						if bo, isOp := nv.(*ssa.BinOp); isOp {
							_ = bo
							k.c.Bad("dimacs", shortFn(f)+" variables", k.p.pos(cl.Pos()), "the number of variables announced is not the size of the table")
						} else if good {
							k.c.Ok("dimacs", shortFn(f)+" variables", k.p.pos(cl.Pos()))
						}
					}
					if v, known := r.get(nv).Int(); known {
						k.c.Bad("dimacs", shortFn(f)+" variables", k.p.pos(cl.Pos()), fmt.Sprintf("%d variables are announced, however many there are", v))
					}
					val := r.get(nc)
					switch {
					case n == "SortFalse":
						if v, ok := val.Int(); ok {
							k.c.Cond(v == 1, "dimacs", shortFn(f)+" clauses of "+n, k.p.pos(cl.Pos()), fmt.Sprintf("the one empty clause is announced as %d clauses", v))
						} else {
							k.opened("%s: number of clauses of $false not seen", shortFn(f))
						}
					default:
						if v, ok := val.Int(); ok && (n == "SortAnd" || n == "SortTrue" && v != 0) {
							k.c.Bad("dimacs", shortFn(f)+" clauses of "+n, k.p.pos(cl.Pos()), fmt.Sprintf("%d clauses are announced for every formula of sort %s", v, n))
						} else {
							k.c.Ok("dimacs", shortFn(f)+" clauses of "+n, k.p.pos(cl.Pos()))
						}
					}
				}
			}
		}
		switch n {
		case "SortAnd":
			k.c.Cond(split, "dimacs", shortFn(f)+" parts of "+n, pos, "a conjunction is not split into its clauses")
		case "SortOr", "SortLiteral":
			k.c.Cond(!split || whole, "dimacs", shortFn(f)+" parts of "+n, pos, "a single clause is split into its literals")
		}
	}
}

// dimacsRead: the sign of a number.
func (k *roundTrip) dimacsRead() {
	for _, f := range k.p.Funcs {
		if pkgOf(f) == nil || shortPkg(pkgOf(f)) != "io" || f.Parent() != nil {
			continue
		}
		// a clause is the disjunction of the literals of its line
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				n := isBuilder(cl)
				if n != "And" && n != "Or" && n != "Clause" || len(cl.Call.Args) == 0 {
					continue
				}
				if collectsLiterals(cl.Call.Args[len(cl.Call.Args)-1], map[ssa.Value]bool{}) {
					k.c.Cond(n != "And", "dimacs", "clause of "+shortFn(f), k.p.pos(cl.Pos()), "the literals of a line are conjoined")
				}
			}
		}
		for _, has := range []bool{true, false} {
			s := k.signCase("-", has, func(v ssa.Value, get func(ssa.Value) cval) (string, bool) {
				if p, ok := v.(*ssa.Parameter); ok && isString(p.Type()) {
					_ = p
					return "", false
				}
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && isString(u.Type()) {
					if _, ok := u.X.(*ssa.IndexAddr); ok {
						// a field of the line, not the caller's prefix
						if ia := u.X.(*ssa.IndexAddr); !fromParam(ia.X) {
							return "elem", true
						}
					}
				}
				return "", false
			})
			got := litsMade(k.p, s, f, nil, "io")
			for g := range got {
				if !strings.Contains(g, "elem") {
					delete(got, g)
				}
			}
			k.judgeSign("dimacs", "read by "+shortFn(f), k.p.pos(f.Pos()), got, "-", "\x00elem", has)
		}
	}
}

// collectsLiterals: literals are appended to the slice.
func collectsLiterals(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if collectsLiterals(e, seen) {
				return true
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(x.Call.Args) == 2 {
			for _, e := range varargs(x.Call.Args[1]) {
				if cl, ok := strip(e).(*ssa.Call); ok && builders[isBuilder(cl)] == "SortLiteral" {
					return true
				}
			}
			return collectsLiterals(x.Call.Args[0], seen)
		}
	case *ssa.Slice:
		return collectsLiterals(x.X, seen)
	}
	return false
}

func fromParam(v ssa.Value) bool {
	_, ok := v.(*ssa.Parameter)
	return ok
}
