package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C06"] = checkC06 }

// cannotFail: callees whose error is dropped on purpose because, with the
// arguments they are given in that package, they cannot fail (reviewed).
var cannotFail = map[string]string{
	"NaryOperator":        "the sort is the sort of an existing n-ary formula or its dual",
	"BinaryOperator":      "the sort is the sort of an existing binary formula",
	"DualSort":            "only called for n-ary sorts",
	"AsVariable":          "only called on a formula that was just made from a variable",
	"AsLiteral":           "only called under a test for the literal sort",
	"LiteralsAsVariables": "only called on the literals of a cardinality constraint, which are variables",
	"New":                 "assignment of pairwise different variables in one phase",
	"AddLit":              "literals of a consistent assignment or backbone",
	"CNFSubsumption":      "only called on a formula that was just converted to CNF",
	"HypergraphFromCNF":   "only called on a formula that was just converted to CNF",
	"EncodeCC":            "only called on a formula that was just made with AMO, EXO or CC",
	"EncodeCCInResult":    "only called under a test for a cardinality constraint",
	"AddIncrementalCC":    "only called on a constraint that was just made",
	"AddSoftFormula":      "called with the constant weight 1",
	"Substitute":          "substitutes variables by variables, which is possible in every formula",
	"loadState":           "loads a state that was saved in the same call",
	"LoadState":           "loads a state that was saved in the same call",
	"getVariableForIndex": "only called on indices found in a node of the kernel",
}

// dropOK: the packages in which the callee's error may be dropped.
var dropOK = map[string][]string{
	"NaryOperator":        {"assignment", "formula", "normalform", "simplification", "transformation", "dnnf", "bdd", "encoding", "randomizer"},
	"BinaryOperator":      {"assignment", "formula", "normalform", "simplification", "transformation", "randomizer"},
	"DualSort":            {"simplification"},
	"AsVariable":          {"formula", "bdd"},
	"AsLiteral":           {"maxsat", "sat"},
	"LiteralsAsVariables": {"formula", "encoding"},
	"New":                 {"assignment", "normalform", "simplification", "transformation"},
	"AddLit":              {"assignment", "simplification", "model/count"},
	"CNFSubsumption":      {"dnnf"},
	"HypergraphFromCNF":   {"bdd"},
	"EncodeCC":            {"sat", "transformation"},
	"EncodeCCInResult":    {"sat"},
	"AddIncrementalCC":    {"sat"},
	"AddSoftFormula":      {"np"},
	"Substitute":          {"transformation"},
	"loadState":           {"maxsat"},
	"LoadState":           {"sat"},
}

func checkC06(c *Ctx) {
	p := c.P
	c.Rule("error-reported", "when a called operation returns an error, every path from there returns an error or panics: no success result is returned, no later call overwrites the error", 45)
	c.Rule("scan-error", "after a scanner has stopped, success is returned only after the scanner was asked for its error", 2)
	c.Rule("flushed", "an operation that writes through a buffer reports success only after the buffer was flushed without error", 0)
	c.Rule("closes-file", "a file that a function opens is closed on every way out of the function", 5)
	c.Rule("bad-input-refused", "an operation returns an error for exactly the inputs it is documented to refuse", 20)
	c.Rule("token-index", "the tokens of an input line are indexed only where a test before guarantees that there are so many", 4)
	c.Rule("parse-before-build", "lexer and parser report to a listener of the call, and the formula is built from the parse tree only if that listener saw no error", 4)
	c.Rule("whole-input", "a parse succeeds only if the formula extends to the end of the input", 1)
	c.Rule("error-not-panic", "an operation that reports failures as errors does not use the variant that panics on them", 20)
	if c.fixture {
		return
	}
	for _, f := range p.Funcs {
		if strings.Contains(p.Fset.Position(f.Pos()).Filename, "/parser/logicngpropositional") {
			continue
		}
		errFlow(c, p, f)
		closes(c, p, f)
		flushed(c, p, f)
		tokenIndex(c, p, f)
		noUnsafe(c, p, f)
	}
	refusals(c, p)
	parserRules(c, p)
}

func isErrT(t types.Type) bool { return t.String() == "error" }

// certainlyErr: a value that is never nil.
func certainlyErr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return certainlyErr(x.X)
	case *ssa.Call:
		if g := staticCallee(&x.Call); g != nil && pkgOf(g) != nil {
			if shortPkg(pkgOf(g)) == "errorx" {
				return true
			}
			switch pkgOf(g).Path() + "." + g.Name() {
			case "errors.New", "fmt.Errorf":
				return true
			}
			if inModule(g) && len(g.Blocks) > 0 && g.Signature.Results().Len() == 1 && isErrT(g.Signature.Results().At(0).Type()) {
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && (r.Results[0] == v || !certainlyErr(r.Results[0])) {
						return false
					}
				}
				return true
			}
		}
	}
	return false
}

// stickyWriter: a writer whose writes cannot fail or which keeps the failure
// for later.
func stickyWriter(p *Program, v ssa.Value, d int) bool {
	if d > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return stickyWriter(p, x.X, d+1)
	case *ssa.ChangeInterface:
		return stickyWriter(p, x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !stickyWriter(p, e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		if ok := writerType(x.Type()); ok {
			return true
		}
		f := x.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == x {
				idx = i
			}
		}
		n := 0
		if exported(f) {
			return false
		}
		for _, s := range p.caller[f] {
			if s.ins == nil || s.dyn || idx >= len(s.ins.Common().Args) {
				return false
			}
			n++
			if !stickyWriter(p, s.ins.Common().Args[idx], d+1) {
				return false
			}
		}
		return n > 0
	}
	return writerType(v.Type())
}

func writerType(t types.Type) bool {
	switch types.TypeString(deref(t), nil) {
	case "strings.Builder", "bytes.Buffer", "bufio.Writer", "text/tabwriter.Writer":
		return true
	}
	return false
}

func errFlow(c *Ctx, p *Program, f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := ci.Common()
			sig := com.Signature()
			n := sig.Results().Len()
			if n == 0 || !isErrT(sig.Results().At(n-1).Type()) {
				continue
			}
			name, pkg := "", ""
			if g := staticCallee(com); g != nil {
				name = g.Name()
				if q := pkgOf(g); q != nil {
					pkg = shortPkg(q)
				}
			} else if com.IsInvoke() {
				name = com.Method.Name()
				pkg = shortPkg(com.Method.Pkg())
			} else {
				continue
			}
			if pkg == "errorx" || pkg == "errors" || name == "Errorf" {
				continue
			}
			if cl, ok := in.(*ssa.Call); ok && certainlyErr(cl) {
				continue // makes an error, does not report one
			}
			if name == "Close" {
				continue // closing a file that was read; see DESIGN.md
			}
			if len(com.Args) > 0 && (name == "Fprintf" || name == "Fprintln" || name == "Fprint") && stickyWriter(p, com.Args[0], 0) {
				continue
			}
			if len(com.Args) > 0 && (strings.HasPrefix(name, "Write")) && writerType(com.Args[0].Type()) {
				continue
			}
			if pkg == "fmt" && (name == "Println" || name == "Printf" || name == "Print") {
				continue
			}
			key := rel(f) + " -> " + strings.Trim(pkg+"."+name, ".")
			v, isCall := in.(*ssa.Call)
			var e ssa.Value
			tailRet := false
			if isCall {
				if n == 1 {
					e = v
				} else {
					for _, x := range extracts(v) {
						if x.Index == n-1 {
							e = x
						}
					}
				}
				for _, r := range *v.Referrers() {
					if _, ok := r.(*ssa.Return); ok && n > 1 {
						tailRet = true
					}
				}
			}
			if tailRet {
				c.Ok("error-reported", key, p.pos(in.Pos()))
				continue
			}
			if e == nil || len(*e.Referrers()) == 0 {
				ok := false
				for _, q := range dropOK[name] {
					if q == shortPkg(pkgOf(f)) {
						ok = true
					}
				}
				// a write of a string into a buffer
				if !ok && len(com.Args) > 0 && stickyWriter(p, com.Args[0], 0) {
					ok = true
				}
				c.Cond(ok, "error-reported", key, p.pos(in.Pos()), "the error this call returns is dropped")
				continue
			}
			if name == "createModel" && f.Name() == "Support" {
				c.Ok("error-reported", key, p.pos(in.Pos())) // no support: documented as the empty list
				continue
			}
			s := &errSim{p: p, f: f, seen: map[string]bool{}}
			st := errState{nn: map[ssa.Value]bool{e: true}, cells: map[ssa.Value]bool{}}
			start := e.(ssa.Instruction)
			for i, x := range start.Block().Instrs {
				if x == start {
					s.run(start.Block(), i+1, st)
				}
			}
			c.Cond(s.bad == "", "error-reported", key, p.pos(in.Pos()), s.bad)
		}
	}
	// scanner rule
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			cl, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := staticCallee(&cl.Call)
			if g == nil || g.Name() != "Scan" || pkgOf(g) == nil || pkgOf(g).Path() != "bufio" {
				continue
			}
			_ = i
			sc := cl.Call.Args[0]
			// the edge on which Scan answered false
			for _, r := range *cl.Referrers() {
				iff, neg := condUse(r)
				if iff == nil {
					continue
				}
				t := iff.Block().Succs[1]
				if neg {
					t = iff.Block().Succs[0]
				}
				bad := scanPath(f, t, sc, map[*ssa.BasicBlock]bool{})
				d := ""
				if bad != nil {
					d = "a read that failed counts as the end of the input: success is returned at " + p.pos(bad.Pos()) + " without asking the scanner for its error"
				}
				c.Cond(bad == nil, "scan-error", rel(f), p.pos(cl.Pos()), d)
			}
		}
	}
}

func condUse(r ssa.Instruction) (*ssa.If, bool) {
	switch x := r.(type) {
	case *ssa.If:
		return x, false
	case *ssa.UnOp:
		if x.Op == token.NOT {
			for _, r2 := range *x.Referrers() {
				if i, n := condUse(r2); i != nil {
					return i, !n
				}
			}
		}
	}
	return nil, false
}

func scanPath(f *ssa.Function, b *ssa.BasicBlock, sc ssa.Value, seen map[*ssa.BasicBlock]bool) *ssa.Return {
	if seen[b] {
		return nil
	}
	seen[b] = true
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Call:
			if g := staticCallee(&x.Call); g != nil && len(x.Call.Args) > 0 && x.Call.Args[0] == sc && g.Name() == "Err" {
				return nil
			}
			// asked in a helper
			if g := staticCallee(&x.Call); g != nil && inModule(g) {
				for i, a := range x.Call.Args {
					if a == sc && i < len(g.Params) {
						for _, b2 := range g.Blocks {
							for _, in2 := range b2.Instrs {
								if y, ok := in2.(*ssa.Call); ok && len(y.Call.Args) > 0 && y.Call.Args[0] == g.Params[i] && staticCallee(&y.Call) != nil && staticCallee(&y.Call).Name() == "Err" {
									return nil
								}
							}
						}
					}
				}
			}
		case *ssa.Return:
			if returnsError(x) {
				return nil
			}
			return x
		}
	}
	for _, s := range b.Succs {
		if r := scanPath(f, s, sc, seen); r != nil {
			return r
		}
	}
	return nil
}

type errState struct {
	nn    map[ssa.Value]bool // values known to be this (non-nil) error
	cells map[ssa.Value]bool // variables that hold it
}

func (s errState) clone() errState {
	n := errState{map[ssa.Value]bool{}, map[ssa.Value]bool{}}
	for k := range s.nn {
		n.nn[k] = true
	}
	for k := range s.cells {
		n.cells[k] = true
	}
	return n
}

func (s errState) sig() string {
	var a []string
	for k := range s.nn {
		a = append(a, k.Name())
	}
	for k := range s.cells {
		a = append(a, "&"+k.Name())
	}
	sort.Strings(a)
	return strings.Join(a, ",")
}

type errSim struct {
	p    *Program
	f    *ssa.Function
	seen map[string]bool
	bad  string
}

func (s *errSim) run(b *ssa.BasicBlock, from int, st errState) {
	if s.bad != "" {
		return
	}
	k := fmt.Sprint(b.Index, " ", from, " ", st.sig())
	if s.seen[k] {
		return
	}
	s.seen[k] = true
	is := func(v ssa.Value) bool { return st.nn[v] || certainlyErr(v) }
	for _, in := range b.Instrs[from:] {
		switch x := in.(type) {
		case *ssa.ChangeInterface:
			if is(x.X) {
				st.nn[x] = true
			}
		case *ssa.Store:
			if isErrT(deref(x.Addr.Type())) {
				if is(x.Val) {
					if _, ok := x.Addr.(*ssa.FieldAddr); ok {
						if s.fieldRead(x.Addr.(*ssa.FieldAddr)) {
							return // recorded for the caller
						}
					}
					st.cells[x.Addr] = true
				} else {
					delete(st.cells, x.Addr)
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && st.cells[x.X] {
				st.nn[x] = true
			}
		case *ssa.Call:
			// the error is handed to something that ends the program or is
			// itself a report
			delete(st.nn, x)
			if g := staticCallee(&x.Call); g != nil && inModule(g) && alwaysPanics(g) {
				return
			}
		case *ssa.Extract:
			delete(st.nn, x)
		case *ssa.Panic:
			return
		case *ssa.Return:
			if !hasErrResult(s.f) {
				s.bad = "the error is not reported: " + s.p.pos(x.Pos()) + " returns as if nothing had failed"
				return
			}
			for _, r := range x.Results {
				if isErrT(r.Type()) && is(r) {
					return
				}
			}
			s.bad = "although this call failed, " + s.p.pos(x.Pos()) + " can be reached and returns no error (or another one that may be nil)"
			return
		case *ssa.If:
			cond, neg := x.Cond, false
			for {
				u, ok := cond.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				cond, neg = u.X, !neg
			}
			if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.NEQ || bo.Op == token.EQL) {
				var o ssa.Value
				if isNilConst(bo.Y) {
					o = bo.X
				} else if isNilConst(bo.X) {
					o = bo.Y
				}
				if u, ok := o.(*ssa.UnOp); ok && !is(o) && isErrT(o.Type()) {
					// an earlier failure is already recorded
					if fa, ok := u.X.(*ssa.FieldAddr); ok && s.fieldRead(fa) {
						i := 1
						if (bo.Op == token.EQL) != neg {
							i = 0
						}
						s.edge(b, i, st)
						return
					}
				}
				if o != nil && is(o) {
					i := 0
					if (bo.Op == token.EQL) != neg {
						i = 1
					}
					s.edge(b, i, st)
					return
				}
			}
			// the same failure told by another name: errors.Is(err, nil) and
			// the like are not followed
		}
	}
	for i := range b.Succs {
		s.edge(b, i, st.clone())
	}
}

func (s *errSim) edge(b *ssa.BasicBlock, i int, st errState) {
	t := b.Succs[i]
	st = st.clone()
	pi := -1
	for j, q := range t.Preds {
		if q == b {
			pi = j
		}
	}
	var set, clr []ssa.Value
	from := 0
	for _, in := range t.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		from++
		if isErrT(ph.Type()) && pi >= 0 && (st.nn[ph.Edges[pi]] || certainlyErr(ph.Edges[pi])) {
			set = append(set, ph)
		} else {
			clr = append(clr, ph)
		}
	}
	for _, v := range clr {
		delete(st.nn, v)
	}
	for _, v := range set {
		st.nn[v] = true
	}
	s.run(t, from, st)
}

// fieldRead: the field is returned as an error by some function of the
// package under a test for nil.
func (s *errSim) fieldRead(fa *ssa.FieldAddr) bool {
	k := fieldKey(fa.X.Type(), fa.Field)
	for _, f := range s.p.Funcs {
		if f == s.f || !hasErrResult(f) {
			continue
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, v := range r.Results {
					if k2, _ := valueFieldKey(v, 0); isErrT(v.Type()) && k2 == k {
						return true
					}
				}
			}
		}
	}
	return false
}

func hasErrResult(f *ssa.Function) bool {
	r := f.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if isErrT(r.At(i).Type()) {
			return true
		}
	}
	return false
}

func alwaysPanics(g *ssa.Function) bool {
	if len(g.Blocks) == 0 {
		return false
	}
	for _, b := range g.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return false
		}
	}
	return true
}

// closes: an opened file is closed (deferred or on every path).
func closes(c *Ctx, p *Program, f *ssa.Function) {
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			cl, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := staticCallee(&cl.Call)
			if g == nil || pkgOf(g) == nil || pkgOf(g).Path() != "os" || !(g.Name() == "Open" || g.Name() == "Create" || g.Name() == "OpenFile") {
				continue
			}
			var file, er ssa.Value
			for _, x := range extracts(cl) {
				if x.Index == 0 {
					file = x
				} else {
					er = x
				}
			}
			closesIt := func(in ssa.Instruction) bool {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || file == nil {
					return false
				}
				com := ci.Common()
				g := staticCallee(com)
				if mc, ok := com.Value.(*ssa.MakeClosure); ok { // defer func() { file.Close() }()
					for j, bnd := range mc.Bindings {
						if bnd == file || cellOfValue(bnd, file) {
							fn := mc.Fn.(*ssa.Function)
							return closesParam(fn, fn.FreeVars[j])
						}
					}
				}
				if g != nil && g.Name() == "Close" && len(com.Args) > 0 && (com.Args[0] == file || loadsCell(com.Args[0], file)) {
					return true
				}
				if g != nil && inModule(g) {
					for j, a := range com.Args {
						if a == file && j < len(g.Params) && closesParam(g, g.Params[j]) {
							return true
						}
					}
				}
				return false
			}
			escapes := false
			if file != nil {
				for _, b2 := range f.Blocks {
					if r, ok := b2.Instrs[len(b2.Instrs)-1].(*ssa.Return); ok {
						for _, v := range r.Results {
							if v == file {
								escapes = true
							}
						}
					}
				}
			}
			if escapes {
				continue
			}
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock, from int) *ssa.Return
			walk = func(b *ssa.BasicBlock, from int) *ssa.Return {
				if from == 0 {
					if seen[b] {
						return nil
					}
					seen[b] = true
				}
				for _, in := range b.Instrs[from:] {
					if closesIt(in) {
						return nil
					}
					if r, ok := in.(*ssa.Return); ok {
						return r
					}
					if _, ok := in.(*ssa.Panic); ok {
						return nil
					}
				}
				for j, s := range b.Succs {
					if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
						if bo, ok := iff.Cond.(*ssa.BinOp); ok && bo.X == er && errEdge(bo, false) == j {
							continue
						}
					}
					if r := walk(s, 0); r != nil {
						return r
					}
				}
				return nil
			}
			r := walk(b, i+1)
			d := ""
			if r != nil {
				d = "the file opened here is still open on the path to " + p.pos(r.Pos())
			}
			c.Cond(r == nil, "closes-file", rel(f), p.pos(cl.Pos()), d)
		}
	}
}

// flushed: a bufio.Writer made here is flushed on every path to success.
func flushed(c *Ctx, p *Program, f *ssa.Function) {
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			cl, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := staticCallee(&cl.Call)
			if g == nil || pkgOf(g) == nil || pkgOf(g).Path() != "bufio" || !strings.HasPrefix(g.Name(), "NewWriter") {
				continue
			}
			seen := map[*ssa.BasicBlock]bool{}
			var walk func(b *ssa.BasicBlock, from int) *ssa.Return
			walk = func(b *ssa.BasicBlock, from int) *ssa.Return {
				if from == 0 && seen[b] {
					return nil
				}
				seen[b] = true
				for _, in := range b.Instrs[from:] {
					if ci, ok := in.(*ssa.Call); ok {
						if g := staticCallee(&ci.Call); g != nil && g.Name() == "Flush" && ci.Call.Args[0] == cl {
							return nil // what it answers is followed by error-reported
						}
					}
					if r, ok := in.(*ssa.Return); ok && !returnsError(r) {
						return r
					}
				}
				for _, s := range b.Succs {
					if r := walk(s, 0); r != nil {
						return r
					}
				}
				return nil
			}
			r := walk(b, i+1)
			d := ""
			if r != nil {
				d = "success is returned at " + p.pos(r.Pos()) + " before the buffer is flushed"
			}
			c.Cond(r == nil, "flushed", rel(f), p.pos(cl.Pos()), d)
		}
	}
}

func cellOfValue(cell, v ssa.Value) bool {
	a, ok := cell.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Val == v {
			return true
		}
	}
	return false
}

func loadsCell(l, v ssa.Value) bool {
	u, ok := l.(*ssa.UnOp)
	return ok && u.Op == token.MUL && cellOfValue(u.X, v)
}

func closesParam(g *ssa.Function, par ssa.Value) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				com := ci.Common()
				if h := staticCallee(com); h != nil && h.Name() == "Close" && len(com.Args) > 0 {
					a := com.Args[0]
					if a == par {
						return true
					}
					if u, ok := a.(*ssa.UnOp); ok && u.X == par {
						return true
					}
				}
			}
		}
	}
	return false
}

// tokenIndex: indices into strings.Fields / strings.Split results.
func tokenIndex(c *Ctx, p *Program, f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			cl, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := staticCallee(&cl.Call)
			if g == nil || pkgOf(g) == nil || pkgOf(g).Path() != "strings" || !(g.Name() == "Fields" || strings.HasPrefix(g.Name(), "Split")) {
				continue
			}
			min0 := 0
			if g.Name() == "Split" {
				min0 = 1
			}
			madeFromTokens(c, p, f, cl)
			for _, r := range *cl.Referrers() {
				var need int
				var at ssa.Instruction
				switch x := r.(type) {
				case *ssa.IndexAddr:
					if x.X != cl {
						continue
					}
					n, ok := needLen(cl, x.Index)
					if !ok {
						// loop variable below len, or anything compared with it
						c.Cond(indexBelowLen(cl, x), "token-index", rel(f)+" variable index", p.pos(x.Pos()), "the index is not known to be below the number of tokens")
						continue
					}
					need, at = n, x
				case *ssa.Slice:
					if x.X != cl || x.High == nil && x.Low == nil {
						continue
					}
					for _, e := range []ssa.Value{x.Low, x.High} {
						if e == nil {
							continue
						}
						if k, ok := intConst(e); ok {
							need = max(need, k)
						} else if base, off := affineBase(e); isLenOf(base, cl) {
							need = max(need, -off)
						}
					}
					at = x
				default:
					continue
				}
				have := max(min0, knownLen(cl, at))
				c.Cond(have >= need, "token-index", fmt.Sprintf("%s needs %d tokens", rel(f), need), p.pos(at.Pos()), fmt.Sprintf("only %d tokens are guaranteed here", have))
			}
		}
	}
}

// madeFromTokens: a slice made with a length computed from the number of
// tokens must not get a negative length.
func madeFromTokens(c *Ctx, p *Program, f *ssa.Function, s *ssa.Call) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			mk, ok := in.(*ssa.MakeSlice)
			if !ok {
				continue
			}
			// len(s) - sym - k
			v, off := affineBase(mk.Len)
			var sym ssa.Value
			if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.SUB {
				var o2 int
				v, o2 = affineBase(bo.X)
				off += o2
				sym, o2 = affineBase(bo.Y)
				off -= o2
			}
			if !isLenOf(v, s) || off >= 0 && sym == nil {
				continue
			}
			ok = sym == nil && knownLen(s, mk) >= -off
			if sym != nil {
				ok = lenAbove(s, sym, -off, mk)
			}
			c.Cond(ok, "token-index", rel(f)+" length from tokens", p.pos(mk.Pos()), "the length can be negative for a line with too few tokens")
		}
	}
}

// lenAbove: a dominating test guarantees len(s) - sym >= k.
func lenAbove(s *ssa.Call, sym ssa.Value, k int, at ssa.Instruction) bool {
	for b := at.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y, op := bo.X, bo.Y, bo.Op
		if d.Succs[1] == b {
			op = negate(op)
		}
		if !isLenOf(affBase(x), s) {
			x, y, op = y, x, flip(op)
		}
		xb, xo := affineBase(x)
		yb, yo := affineBase(y)
		if !isLenOf(xb, s) || yb != sym {
			continue
		}
		// len + xo op sym + yo  ->  len - sym >= yo - xo (+1)
		g := yo - xo
		if op == token.GTR {
			g++
		} else if op != token.GEQ {
			continue
		}
		if g >= k {
			return true
		}
	}
	if u, ok := upperBound(sym); ok {
		return knownLen(s, at) >= u+k
	}
	return false
}

func upperBound(v ssa.Value) (int, bool) {
	if k, ok := intConst(v); ok {
		return k, true
	}
	if ph, ok := v.(*ssa.Phi); ok {
		best := 0
		for i, e := range ph.Edges {
			k, ok := intConst(e)
			if !ok {
				return 0, false
			}
			if i == 0 || k > best {
				best = k
			}
		}
		return best, true
	}
	return 0, false
}

func isLenOf(v, s ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && c.Call.Args[0] == s
}

func needLen(s, idx ssa.Value) (int, bool) {
	if k, ok := intConst(idx); ok {
		return k + 1, true
	}
	base, off := affineBase(idx)
	if isLenOf(base, s) {
		return -off, true
	}
	return 0, false
}

// knownLen: lower bound of len(s) from the conditions that dominate at.
func knownLen(s *ssa.Call, at ssa.Instruction) int {
	best := 0
	for b := at.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 {
			continue
		}
		edge := -1
		for i, x := range d.Succs {
			if x == b {
				edge = i
			}
		}
		if edge < 0 || d.Succs[0] == d.Succs[1] {
			continue
		}
		cond, neg := iff.Cond, edge == 1
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, neg = u.X, !neg
		}
		bo, ok := cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		// strings.TrimSpace(line) != "" guarantees one token of Fields(line)
		if k, ok := bo.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "" {
			if tc, ok := bo.X.(*ssa.Call); ok {
				if g := staticCallee(&tc.Call); g != nil && g.Name() == "TrimSpace" && staticCallee(&s.Call).Name() == "Fields" && tc.Call.Args[0] == s.Call.Args[0] {
					if (bo.Op == token.NEQ) != neg {
						best = max(best, 1)
					}
				}
			}
			continue
		}
		x, y, op := bo.X, bo.Y, bo.Op
		if !isLenOf(affBase(x), s) {
			x, y = y, x
			op = flip(op)
		}
		bx, ox := affineBase(x)
		if !isLenOf(bx, s) {
			continue
		}
		if neg {
			op = negate(op)
		}
		lo, ok := lowerBound(y, 0)
		if !ok {
			continue
		}
		lo -= ox
		switch op {
		case token.GTR:
			best = max(best, lo+1)
		case token.GEQ:
			best = max(best, lo)
		case token.EQL:
			best = max(best, lo)
		case token.NEQ:
			if k, ok := intConst(y); ok && k-ox == best {
				best++
			}
		}
	}
	return best
}

func affBase(v ssa.Value) ssa.Value { b, _ := affineBase(v); return b }

// lowerBound of an integer value built from constants.
func lowerBound(v ssa.Value, d int) (int, bool) {
	if k, ok := intConst(v); ok {
		return k, true
	}
	if d > 4 {
		return 0, false
	}
	if isLenCall(v) {
		return 0, true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		best, first := 0, true
		for _, e := range x.Edges {
			l, ok := lowerBound(e, d+1)
			if !ok {
				return 0, false
			}
			if first || l < best {
				best, first = l, false
			}
		}
		return best, true
	case *ssa.BinOp:
		if x.Op == token.ADD {
			a, ok1 := lowerBound(x.X, d+1)
			b, ok2 := lowerBound(x.Y, d+1)
			return a + b, ok1 && ok2
		}
		if x.Op == token.SUB {
			if k, ok := intConst(x.Y); ok {
				a, ok1 := lowerBound(x.X, d+1)
				return a - k, ok1
			}
		}
	}
	return 0, false
}

func isLenCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len"
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

// indexBelowLen: a dominating test idx (+c) < len(s) (-d).
func indexBelowLen(s *ssa.Call, ia *ssa.IndexAddr) bool {
	ib, io := affineBase(ia.Index)
	for b := ia.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y, op := bo.X, bo.Y, bo.Op
		if d.Succs[1] == b {
			op = negate(op)
		}
		if isLenOf(affBase(x), s) || isLenBound(affBase(x), s) {
			x, y, op = y, x, flip(op)
		}
		xb, xo := affineBase(x)
		yb, yo := affineBase(y)
		if xb != ib || !(isLenOf(yb, s) || isLenBound(yb, s)) {
			continue
		}
		// ib + xo < len + yo  ->  index ib+io < len + yo - xo + io
		slack := yo - xo + io
		if op == token.LSS && slack <= 0 || op == token.LEQ && slack <= -1 {
			return true
		}
	}
	return false
}

// isLenBound: the length kept in a register (range loops).
func isLenBound(v ssa.Value, s ssa.Value) bool {
	return isLenOf(v, s)
}

// noUnsafe: an error-returning function does not call a function that turns
// the error of its error-returning twin into a panic.
func noUnsafe(c *Ctx, p *Program, f *ssa.Function) {
	if !hasErrResult(f) || !exported(f) {
		return
	}
	bad := ""
	for _, s := range p.callee[f] {
		if s.ins != nil && !s.dyn && isUnsafeVariant(s.to) {
			bad = "calls " + rel(s.to) + " at " + p.pos(s.ins.Pos()) + ", which panics where an error should be returned"
		}
		if s.to != nil && !exported(s.to) {
			for _, s2 := range p.callee[s.to] {
				if s2.ins != nil && isUnsafeVariant(s2.to) && !s2.dyn {
					bad = "reaches " + rel(s2.to) + " through " + rel(s.to) + ", which panics where an error should be returned"
				}
			}
		}
	}
	c.Cond(bad == "", "error-not-panic", rel(f), p.pos(f.Pos()), bad)
}

// isUnsafeVariant: an exported function without error result that panics with
// the error of an operation of the same package on external input.
func isUnsafeVariant(g *ssa.Function) bool {
	if g == nil || !exported(g) || hasErrResult(g) || shortPkg(pkgOf(g)) != "parser" {
		return false
	}
	for _, b := range g.Blocks {
		if pn, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
			v := pn.X
			for {
				if ci, ok := v.(*ssa.ChangeInterface); ok {
					v = ci.X
					continue
				}
				break
			}
			if isErrT(v.Type()) && !certainlyErr(v) {
				return true
			}
		}
	}
	return false
}

// ---- documented refusals, decided by constant propagation ----

type refusal struct {
	pkg, fn string
	what    string
	par     int                            // parameter (receiver counts) fixed to val, or -1
	val     int64                          //
	fix     func(v ssa.Value) (cval, bool) // or any value fixed
	err     bool                           // expected: error on every path / success possible
	some    bool                           // with err: an error on some path is enough (the input is met inside a loop)
}

func callTo(v ssa.Value, pkg, name string) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	if c.Call.IsInvoke() {
		return c.Call.Method.Name() == name && shortPkg(c.Call.Method.Pkg()) == pkg
	}
	g := staticCallee(&c.Call)
	return g != nil && g.Name() == name && pkgOf(g) != nil && shortPkg(pkgOf(g)) == pkg
}

func fixCall(pkg, name string, val bool) func(ssa.Value) (cval, bool) {
	return func(v ssa.Value) (cval, bool) {
		if callTo(v, pkg, name) {
			return cval{v: constant.MakeBool(val)}, true
		}
		return cval{}, false
	}
}

func fixCallInt(pkg, name string, val int64) func(ssa.Value) (cval, bool) {
	return func(v ssa.Value) (cval, bool) {
		if callTo(v, pkg, name) {
			return cval{v: constant.MakeInt64(val)}, true
		}
		return cval{}, false
	}
}

// fixLookup: every two-valued map lookup answers ok=val.
func fixLookup(val bool) func(ssa.Value) (cval, bool) {
	return func(v ssa.Value) (cval, bool) {
		if e, ok := v.(*ssa.Extract); ok && e.Index == 1 {
			if l, ok := e.Tuple.(*ssa.Lookup); ok && l.CommaOk {
				return cval{v: constant.MakeBool(val)}, true
			}
		}
		return cval{}, false
	}
}

func both(a, b func(ssa.Value) (cval, bool)) func(ssa.Value) (cval, bool) {
	return func(v ssa.Value) (cval, bool) {
		if r, ok := a(v); ok {
			return r, ok
		}
		return b(v)
	}
}

func refusals(c *Ctx, p *Program) {
	sorts := enumValues(p, "formula", "FSort")
	sort := func(n string) int64 { return sorts[n] }
	var rs []refusal
	for n, v := range sorts {
		nary := n == "SortAnd" || n == "SortOr"
		bin := n == "SortImpl" || n == "SortEquiv"
		rs = append(rs,
			refusal{pkg: "formula", fn: "CachingFactory.NaryOperator", what: "sort " + n, par: 1, val: v, err: !nary},
			refusal{pkg: "formula", fn: "CachingFactory.BinaryOperator", what: "sort " + n, par: 1, val: v, fix: nil, err: !bin},
			refusal{pkg: "formula", fn: "DualSort", what: "sort " + n, par: 0, val: v, fix: nil, err: !nary},
			refusal{pkg: "formula", fn: "Formula.AsLiteral", what: "sort " + n, par: -1, val: 0, fix: fixCallInt("formula", "Sort", v), err: n != "SortLiteral"},
			refusal{pkg: "formula", fn: "Formula.AsVariable", what: "sort " + n + " positive", par: -1, val: 0, fix: both(fixCallInt("formula", "Sort", v), fixCall("formula", "IsPos", true)), err: n != "SortLiteral"},
		)
	}
	rs = append(rs,
		refusal{pkg: "formula", fn: "Formula.AsVariable", what: "negative literal", par: -1, val: 0, fix: both(both(fixCallInt("formula", "Sort", sort("SortLiteral")), fixCall("formula", "IsPos", false)), fixCall("formula", "IsNeg", true)), err: true},
		refusal{pkg: "maxsat", fn: "Solver.AddSoftFormula", what: "weight 0", par: 2, val: 0, fix: nil, err: true},
		refusal{pkg: "maxsat", fn: "Solver.AddSoftFormula", what: "weight -1", par: 2, val: -1, fix: nil, err: true},
		refusal{pkg: "maxsat", fn: "Solver.AddSoftFormula", what: "weight 1", par: 2, val: 1, fix: nil, err: false},
		refusal{pkg: "simplification", fn: "CNFSubsumptionWithHandler", what: "formula not in CNF", par: -1, val: 0, fix: fixCall("normalform", "IsCNF", false), err: true},
		refusal{pkg: "simplification", fn: "CNFSubsumptionWithHandler", what: "formula in CNF", par: -1, val: 0, fix: fixCall("normalform", "IsCNF", true), err: false},
		refusal{pkg: "simplification", fn: "DNFSubsumptionWithHandler", what: "formula not in DNF", par: -1, val: 0, fix: fixCall("normalform", "IsDNF", false), err: true},
		refusal{pkg: "simplification", fn: "DNFSubsumptionWithHandler", what: "formula in DNF", par: -1, val: 0, fix: fixCall("normalform", "IsDNF", true), err: false},
		refusal{pkg: "io", fn: "WriteDimacsToWriter", what: "formula not in CNF", par: -1, val: 0, fix: fixCall("normalform", "IsCNF", false), err: true},
		refusal{pkg: "io", fn: "WriteDimacsToWriter", what: "formula in CNF", par: -1, val: 0, fix: fixCall("normalform", "IsCNF", true), err: false},
		refusal{pkg: "bdd", fn: "Kernel.IndexForVariable", what: "unknown variable", par: -1, val: 0, fix: fixLookup(false), err: true},
		refusal{pkg: "bdd", fn: "Kernel.IndexForVariable", what: "known variable", par: -1, val: 0, fix: fixLookup(true), err: false},
		refusal{pkg: "bdd", fn: "BDD.createModel", what: "contradiction", par: 1, val: 0, fix: nil, err: true},
		refusal{pkg: "bdd", fn: "BDD.createModel", what: "tautology", par: 1, val: 1, fix: nil, err: false},
		refusal{pkg: "graphical", fn: "ColorFromRgb", what: "red 256", par: 0, val: 256, fix: nil, err: true},
		refusal{pkg: "graphical", fn: "ColorFromRgb", what: "green -1", par: 1, val: -1, fix: nil, err: true},
		refusal{pkg: "graphical", fn: "ColorFromRgb", what: "blue 256", par: 2, val: 256, fix: nil, err: true},
		refusal{pkg: "graphical", fn: "ColorFromRgb", what: "blue 255", par: 2, val: 255, fix: nil, err: false},
		refusal{pkg: "graphical", fn: "ColorFromRgb", what: "red 0", par: 0, val: 0, fix: nil, err: false},
		refusal{pkg: "assignment", fn: "Assignment.AddLit", what: "opposite literal present", par: -1, val: 0, fix: fixLookup(true), err: true},
		refusal{pkg: "assignment", fn: "Assignment.AddLit", what: "opposite literal absent", par: -1, val: 0, fix: fixLookup(false), err: false},
	)
	isK := func(name string, idx int) func(ssa.Value) bool {
		return func(v ssa.Value) bool {
			e, ok := v.(*ssa.Extract)
			return ok && e.Index == idx && callTo(e.Tuple, "formula", name)
		}
	}
	csort := enumValues(p, "formula", "CSort")
	pbc := func(cmp string, rhs int64) func(ssa.Value) (cval, bool) {
		return func(v ssa.Value) (cval, bool) {
			if isK("PBCOps", 0)(v) {
				return cval{v: constant.MakeInt64(csort[cmp])}, true
			}
			if isK("PBCOps", 1)(v) {
				return cval{v: constant.MakeInt64(rhs)}, true
			}
			return cval{}, false
		}
	}
	for _, q := range []struct {
		cmp string
		rhs int64
		err bool
	}{{"LE", 1, false}, {"LT", 2, false}, {"EQ", 1, false}, {"LE", 2, true}, {"LE", 0, true}, {"LT", 1, true}, {"LT", 3, true}, {"EQ", 0, true}, {"EQ", 2, true}, {"GE", 1, true}, {"GT", 1, true}, {"GE", 2, true}, {"GT", 2, true}} {
		rs = append(rs, refusal{pkg: "transformation", fn: "ExpandAMOAndEXO", what: fmt.Sprint("constraint ", q.cmp, " ", q.rhs), par: -1, fix: both(fixCallInt("formula", "Sort", sort("SortCC")), pbc(q.cmp, q.rhs)), err: q.err})
	}
	for _, n := range []string{"SortAnd", "SortNot", "SortImpl", "SortCC", "SortPBC"} {
		rs = append(rs,
			refusal{pkg: "transformation", fn: "substitutePbc", what: "replacement of sort " + n, par: -1, fix: both(fixCallInt("formula", "Sort", sort(n)), fixLookup(true)), err: true, some: true},
			refusal{pkg: "graph", fn: "HypergraphFromClauses", what: "clause of sort " + n, par: -1, fix: fixCallInt("formula", "Sort", sort(n)), err: true, some: true})
	}
	strNE := func(k string) func(v ssa.Value) (cval, bool) {
		return func(v ssa.Value) (cval, bool) {
			bo, ok := v.(*ssa.BinOp)
			if !ok {
				return cval{}, false
			}
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				if c, ok := o.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == k {
					return cval{v: constant.MakeBool(bo.Op == token.NEQ)}, true
				}
			}
			return cval{}, false
		}
	}
	fixErrNil := func(v ssa.Value) (cval, bool) { // no called operation fails by itself
		if isErrT(v.Type()) {
			switch x := v.(type) {
			case *ssa.Extract:
				if cl, ok := x.Tuple.(*ssa.Call); ok && !samePkgCall(cl) {
					return cval{nil_: true}, true
				}
			case *ssa.Call:
				if !certainlyErr(x) && !samePkgCall(x) {
					return cval{nil_: true}, true
				}
			}
		}
		return cval{}, false
	}
	rs = append(rs,
		refusal{pkg: "transformation", fn: "ExpandAMOAndEXO", what: "pseudo-Boolean constraint", par: -1, fix: fixCallInt("formula", "Sort", sort("SortPBC")), err: true},
		refusal{pkg: "graph", fn: "HypergraphFromCNF", what: "formula not in CNF", par: -1, fix: fixCall("normalform", "IsCNF", false), err: true},
		refusal{pkg: "formula", fn: "LiteralsAsVariables", what: "negative literal", par: -1, fix: both(fixCall("formula", "IsNeg", true), fixCall("formula", "IsPos", false)), err: true, some: true},
		refusal{pkg: "primeimplicant", fn: "Minimum", what: "unsatisfiable formula", par: -1, fix: fixCall("sat", "Sat", false), err: true},
		refusal{pkg: "explanation/mus", fn: "ComputeDeletionBasedWithHandler", what: "satisfiable propositions", par: -1, fix: both(fixErrNil, both(fixCall("sat", "Sat", true), fixCall("sat", "Canceled", false))), err: true},
		refusal{pkg: "explanation/mus", fn: "ComputeInsertionBasedWithHandler", what: "satisfiable propositions", par: -1, fix: both(fixErrNil, both(fixCall("sat", "Sat", true), fixCall("sat", "Canceled", false))), err: true, some: true},
		refusal{pkg: "io", fn: "ReadDimacsFile", what: "line without final 0", par: -1, fix: both(fixErrNil, strNE("0")), err: true, some: true},
		refusal{pkg: "maxsat", fn: "ReadDimacsToSolver", what: "line without final 0", par: -1, fix: both(fixErrNil, strNE("0")), err: true, some: true},
	)
	for _, r := range rs {
		f := p.Func(r.pkg, r.fn)
		if f == nil {
			continue
		}
		args := make([]cval, len(f.Params))
		for i := range args {
			args[i] = cBottom
		}
		if r.par >= 0 && r.par < len(args) {
			args[r.par] = cval{v: constant.MakeInt64(r.val)}
		}
		res := (&sccp{p: p, Fix: r.fix}).Run(f, args)
		succ, n, fails := (*ssa.Return)(nil), 0, false
		for _, b := range f.Blocks {
			if !res.Reach[b] {
				continue
			}
			rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			n++
			isErr := false
			for _, v := range rt.Results {
				if isErrT(v.Type()) {
					isErr = certainlyErr(v) || res.Val[v].nonnil
					if !isErr && returnsError(rt) {
						isErr = true
					}
				}
			}
			// a start event that is refused ends the operation before it
			// looks at its input
			if !isErr && r.err && cancelReturn(rt) {
				continue
			}
			if !isErr {
				succ = rt
			}
			fails = fails || isErr
		}
		if r.some {
			c.Cond(fails, "bad-input-refused", rel(f)+" "+r.what, p.pos(f.Pos()), "no path returns an error for this input")
		} else if r.err {
			d := ""
			if succ != nil {
				d = "success is returned at " + p.pos(succ.Pos())
			}
			c.Cond(succ == nil, "bad-input-refused", rel(f)+" "+r.what, p.pos(f.Pos()), d)
		} else {
			c.Cond(succ != nil, "bad-input-refused", rel(f)+" "+r.what, p.pos(f.Pos()), "a legal input is refused on every path")
		}
	}
}

func samePkgCall(c *ssa.Call) bool {
	g := staticCallee(&c.Call)
	return g != nil && pkgOf(g) == pkgOf(c.Parent())
}

// cancelReturn: the return hands back a cancelled state.
func cancelReturn(r *ssa.Return) bool {
	for _, v := range r.Results {
		if isState(v.Type()) {
			return canonStateIsCancel(v)
		}
	}
	return false
}

func canonStateIsCancel(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	g := staticCallee(&c.Call)
	return g != nil && g.Name() == "Cancelation"
}

// enumValues: the constants of a named integer type.
func enumValues(p *Program, pkg, typ string) map[string]int64 {
	out := map[string]int64{}
	pk := p.ByPth[pkg]
	if pk == nil {
		return out
	}
	sc := pk.Types.Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && isNamed(k.Type(), pkg, typ) {
			if v, ok := constant.Int64Val(k.Val()); ok {
				out[n] = v
			}
		}
	}
	return out
}

// ---- the formula parser ----

func parserRules(c *Ctx, p *Program) {
	for _, f := range p.Funcs {
		if shortPkg(pkgOf(f)) != "parser" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				com := &ci.Call
				name := ""
				if com.IsInvoke() {
					name = com.Method.Name()
				} else if g := staticCallee(com); g != nil {
					name = g.Name()
				}
				if name != "Walk" {
					continue
				}
				parseCall(c, p, f, ci)
			}
		}
	}
}

// parseCall: f walks a parse tree.
func parseCall(c *Ctx, p *Program, f *ssa.Function, walk *ssa.Call) {
	// which objects got a listener
	var listeners []ssa.Value
	attached := map[ssa.Value]ssa.Value{}
	removed := map[ssa.Value]bool{}
	created := map[string]ssa.Value{}
	var start *ssa.Call
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := staticCallee(&ci.Call)
			name := ""
			var recv ssa.Value
			if g != nil {
				name = g.Name()
				if len(ci.Call.Args) > 0 {
					recv = rootRecv(ci.Call.Args[0])
				}
			} else if ci.Call.IsInvoke() {
				name = ci.Call.Method.Name()
				recv = rootRecv(ci.Call.Value)
			}
			switch {
			case name == "AddErrorListener":
				l := ci.Call.Args[len(ci.Call.Args)-1]
				if mi, ok := l.(*ssa.MakeInterface); ok {
					l = mi.X
				}
				attached[recv] = l
				listeners = append(listeners, l)
			case name == "RemoveErrorListeners":
				removed[recv] = true
			case strings.HasPrefix(name, "NewLogicNG") && strings.HasSuffix(name, "Lexer"):
				created["lexer"] = ci
			case strings.HasPrefix(name, "NewLogicNG") && strings.HasSuffix(name, "Parser"):
				created["parser"] = ci
			case name == "Formula" && g != nil && g.Signature.Recv() != nil:
				start = ci
			}
		}
	}
	for _, k := range []string{"lexer", "parser"} {
		o := created[k]
		if o == nil {
			c.Bad("parse-before-build", rel(f)+" "+k, p.pos(f.Pos()), "no "+k+" is created where the parse tree is walked")
			continue
		}
		l := attached[o]
		c.Cond(l != nil, "parse-before-build", rel(f)+" "+k+" listener", p.pos(o.Pos()), "the "+k+" reports its errors to nobody: a malformed input is accepted")
	}
	// the walk is dominated by a test of a field of the listener that its
	// SyntaxError method sets
	okDom := false
	for _, l := range listeners {
		flags := errFields(p, l)
		for b := walk.Block(); b != nil; b = b.Idom() {
			d := b.Idom()
			if d == nil {
				break
			}
			iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
			if !ok || len(b.Preds) != 1 {
				continue
			}
			k, _ := valueFieldKey(iff.Cond, 0)
			neg := false
			if u, ok := iff.Cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				k, _ = valueFieldKey(u.X, 0)
				neg = true
			}
			if k == "" {
				if bo, ok := iff.Cond.(*ssa.BinOp); ok && isNilConst(bo.Y) {
					k, _ = valueFieldKey(bo.X, 0)
					neg = bo.Op == token.EQL
				}
			}
			if k != "" && flags[k] {
				want := 1 // the edge on which no error was seen
				if neg {
					want = 0
				}
				if d.Succs[want] == b && (start == nil || start.Block() == d || start.Block().Dominates(d)) {
					okDom = true
				}
			}
			// ask through a method of the listener
			if cl, ok := iff.Cond.(*ssa.Call); ok && d.Succs[1] == b {
				if g := staticCallee(&cl.Call); g != nil && len(cl.Call.Args) > 0 && cl.Call.Args[0] == l {
					okDom = true
				}
			}
		}
	}
	c.Cond(okDom, "parse-before-build", rel(f)+" walk", p.pos(walk.Pos()), "the parse tree is walked although the lexer or the parser may have reported an error")
	for _, l := range listeners {
		fl := errFields(p, l)
		c.Cond(len(fl) > 0, "parse-before-build", rel(f)+" listener records", p.pos(l.Pos()), "the listener forgets a syntax error")
		break
	}
	// end of input: the start rule of the grammar ends in EOF or the caller
	// compares the next token with EOF
	eof := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(*ssa.Call); ok {
				name := ""
				if ci.Call.IsInvoke() {
					name = ci.Call.Method.Name()
				} else if g := staticCallee(&ci.Call); g != nil {
					name = g.Name()
				}
				if (name == "GetCurrentToken" || name == "LA" || name == "LT" || name == "GetTokenType") && start != nil && start.Block().Dominates(b) {
					eof = true
				}
			}
		}
	}
	if start != nil && staticCallee(&start.Call) != nil {
		eof = eof || startRuleMatchesEOF(staticCallee(&start.Call))
	}
	c.Cond(eof, "whole-input", "formula parser", p.pos(walk.Pos()), "nothing checks that the parsed formula extends to the end of the input")
}

// startRuleMatchesEOF: every alternative of the start rule ends by matching
// the end of the input.
func startRuleMatchesEOF(g *ssa.Function) bool {
	n, m := 0, 0
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(*ssa.Call); ok {
				if h := staticCallee(&ci.Call); h != nil && h.Name() == "Match" {
					if k, ok := intConst(ci.Call.Args[len(ci.Call.Args)-1]); ok && k == -1 {
						m++
					}
				} else if h != nil && h.Name() == "Equiv" {
					n++
				}
			}
		}
	}
	return m > n && n > 0
}

func rootRecv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// errFields: fields of the listener that its SyntaxError method sets to
// something else than the zero value on every path.
func errFields(p *Program, l ssa.Value) map[string]bool {
	out := map[string]bool{}
	n, ok := types.Unalias(deref(l.Type())).(*types.Named)
	if !ok {
		return out
	}
	f := p.Func(shortPkg(n.Obj().Pkg()), n.Obj().Name()+".SyntaxError")
	if f == nil || len(f.Blocks) == 0 {
		return out
	}
	st := structOf(n)
	if st == nil {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		key := fieldKey(n, i)
		w := &mustWriter{p: p, key: key, grow: true, memo: map[*ssa.Function]int{}}
		if !w.must(f) {
			continue
		}
		zero := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if k, _ := addrFieldKey(s.Addr, 0); k == key {
						if cc, ok := s.Val.(*ssa.Const); ok && (cc.IsNil() || cc.Value != nil && cc.Value.Kind() == constant.Bool && !constant.BoolVal(cc.Value)) {
							zero = true
						}
					}
				}
			}
		}
		if !zero {
			out[key] = true
		}
	}
	return out
}
