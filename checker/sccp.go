package main

import (
	"fmt"
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// A small conditional constant propagation: which blocks and which constant
// results remain possible when some conditions are known.
type cval struct {
	top    bool // nothing known yet
	v      constant.Value
	nil_   bool
	nonnil bool
	sym    string // an opaque value known by name
}

var cBottom = cval{}
var cTop = cval{top: true}

func (a cval) known() bool { return !a.top && (a.v != nil || a.nil_ || a.nonnil || a.sym != "") }
func (a cval) eq(b cval) bool {
	if a.top != b.top || a.nil_ != b.nil_ || a.nonnil != b.nonnil || a.sym != b.sym || (a.v == nil) != (b.v == nil) {
		return false
	}
	return a.v == nil || a.v.ExactString() == b.v.ExactString()
}
func (a cval) join(b cval) cval {
	if a.top {
		return b
	}
	if b.top || a.eq(b) {
		return a
	}
	return cBottom
}

type sccp struct {
	p *Program
	// Fix gives the value of some instructions (conditions known by assumption)
	Fix func(v ssa.Value) (cval, bool)
	// FixG does the same for values that depend on other known values
	FixG  func(v ssa.Value, get func(ssa.Value) cval) (cval, bool)
	depth int
	maxD  int
	// memo, if set, keeps the results of calls; a function is then not
	// entered again while it is being analysed
	memo  map[string][]cval
	stack []*ssa.Function
	// skip says which callees are not looked into
	skip func(g *ssa.Function) bool
}

type sccpResult struct {
	Reach   map[*ssa.BasicBlock]bool
	Val     map[ssa.Value]cval
	Results []cval
	Returns []*ssa.Return
	Edges   map[[2]*ssa.BasicBlock]bool
}

func (s *sccp) Run(f *ssa.Function, args []cval) *sccpResult {
	r := &sccpResult{Reach: map[*ssa.BasicBlock]bool{}, Val: map[ssa.Value]cval{}}
	edges := map[[2]*ssa.BasicBlock]bool{}
	r.Edges = edges
	for i, p := range f.Params {
		if i < len(args) {
			r.Val[p] = args[i]
		} else {
			r.Val[p] = cBottom
		}
	}
	get := func(v ssa.Value) cval {
		if k, ok := v.(*ssa.Const); ok {
			if k.IsNil() {
				return cval{nil_: true}
			}
			if k.Value != nil {
				return cval{v: k.Value}
			}
			return cBottom
		}
		if c, ok := r.Val[v]; ok {
			return c
		}
		if _, ok := v.(ssa.Instruction); ok {
			return cTop
		}
		return cBottom
	}
	if len(f.Blocks) == 0 {
		return r
	}
	r.Reach[f.Blocks[0]] = true
	for changed, iter := true, 0; changed && iter < 200; iter++ {
		changed = false
		for _, b := range f.Blocks {
			if !r.Reach[b] {
				continue
			}
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					n := s.eval(f, r, edges, v, get)
					if o, had := r.Val[v]; !had || !o.eq(n) {
						r.Val[v] = n
						changed = true
					}
				}
			}
			mark := func(t *ssa.BasicBlock) {
				if !edges[[2]*ssa.BasicBlock{b, t}] {
					edges[[2]*ssa.BasicBlock{b, t}] = true
					changed = true
				}
				if !r.Reach[t] {
					r.Reach[t] = true
					changed = true
				}
			}
			switch last := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.If:
				c := get(last.Cond)
				if c.top {
					break
				}
				if c.v != nil && c.v.Kind() == constant.Bool {
					if constant.BoolVal(c.v) {
						mark(b.Succs[0])
					} else {
						mark(b.Succs[1])
					}
				} else {
					mark(b.Succs[0])
					mark(b.Succs[1])
				}
			case *ssa.Jump:
				mark(b.Succs[0])
			}
		}
	}
	for _, b := range f.Blocks {
		if !r.Reach[b] {
			continue
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			r.Returns = append(r.Returns, ret)
			for i, x := range ret.Results {
				c := get(x)
				if i >= len(r.Results) {
					r.Results = append(r.Results, c)
				} else {
					r.Results[i] = r.Results[i].join(c)
				}
			}
		}
	}
	return r
}

func (s *sccp) eval(f *ssa.Function, r *sccpResult, edges map[[2]*ssa.BasicBlock]bool, v ssa.Value, get func(ssa.Value) cval) cval {
	if s.Fix != nil {
		if c, ok := s.Fix(v); ok {
			return c
		}
	}
	if s.FixG != nil {
		if c, ok := s.FixG(v, get); ok {
			return c
		}
	}
	switch x := v.(type) {
	case *ssa.Phi:
		out := cTop
		for i, e := range x.Edges {
			if edges[[2]*ssa.BasicBlock{x.Block().Preds[i], x.Block()}] {
				out = out.join(get(e))
			}
		}
		return out
	case *ssa.BinOp:
		a, b := get(x.X), get(x.Y)
		if a.top || b.top {
			return cTop
		}
		if (a.nil_ || a.nonnil) && (b.nil_ || b.nonnil) && (a.nil_ || b.nil_) && (x.Op == token.EQL || x.Op == token.NEQ) {
			return cval{v: constant.MakeBool((a.nil_ == b.nil_) == (x.Op == token.EQL))}
		}
		if a.v == nil || b.v == nil {
			return cBottom
		}
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return cval{v: constant.MakeBool(constant.Compare(a.v, x.Op, b.v))}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			return cval{v: constant.BinaryOp(a.v, x.Op, b.v)}
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(b.v); ok && n < 31 && a.v.Kind() == constant.Int {
				return cval{v: constant.Shift(a.v, x.Op, uint(n))}
			}
		case token.QUO, token.REM:
			if n, ok := constant.Int64Val(b.v); ok && n != 0 && a.v.Kind() == constant.Int {
				op := x.Op
				if op == token.QUO {
					op = token.QUO_ASSIGN // integer division
				}
				return cval{v: constant.BinaryOp(a.v, op, b.v)}
			}
		}
		return cBottom
	case *ssa.UnOp:
		a := get(x.X)
		if a.top {
			return cTop
		}
		if x.Op == token.NOT && a.v != nil {
			return cval{v: constant.UnaryOp(token.NOT, a.v, 0)}
		}
		if x.Op == token.SUB && a.v != nil {
			return cval{v: constant.UnaryOp(token.SUB, a.v, 0)}
		}
		if x.Op == token.SUB && a.sym != "" {
			return cval{sym: negSym(a.sym)}
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			if c := get(ia.X); c.sym != "" {
				return cval{sym: c.sym + "[]"}
			}
		}
		return cBottom
	case *ssa.Slice:
		if a := get(x.X); a.sym != "" && x.Low == nil && x.High == nil {
			return a
		}
		return cBottom
	case *ssa.Convert:
		return get(x.X)
	case *ssa.ChangeType:
		return get(x.X)
	case *ssa.MakeInterface:
		return cval{nonnil: true}
	case *ssa.Alloc:
		return cval{nonnil: true}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			rs := s.call(c, get)
			if x.Index < len(rs) {
				return rs[x.Index]
			}
		}
		return cBottom
	case *ssa.Call:
		rs := s.call(x, get)
		if len(rs) == 1 {
			return rs[0]
		}
		return cBottom
	}
	return cBottom
}

func (s *sccp) call(c *ssa.Call, get func(ssa.Value) cval) []cval {
	if s.depth > max(3, s.maxD) {
		return nil
	}
	g := staticCallee(&c.Call)
	if g == nil || !inModule(g) || len(canonOf(g).Blocks) == 0 || len(canonOf(g).Blocks) > 40 {
		if g != nil && pkgOf(g) != nil && (shortPkg(pkgOf(g)) == "errorx" || pkgOf(g).Path() == "errors" || pkgOf(g).Path() == "fmt") {
			return []cval{{nonnil: true}}
		}
		return nil
	}
	if shortPkg(pkgOf(g)) == "errorx" {
		return []cval{{nonnil: true}}
	}
	var args []cval
	for _, a := range c.Call.Args {
		v := get(a)
		if v.top {
			v = cBottom
		}
		args = append(args, v)
	}
	h := canonOf(g)
	if s.skip != nil && s.skip(h) {
		return nil
	}
	sub := &sccp{p: s.p, Fix: s.Fix, FixG: s.FixG, depth: s.depth + 1, maxD: s.maxD, memo: s.memo, skip: s.skip}
	if s.memo == nil {
		return sub.Run(h, args).Results
	}
	for _, o := range s.stack {
		if o == h {
			return nil
		}
	}
	key := fmt.Sprintf("%d %p", s.depth, h)
	for _, a := range args {
		key += "|" + a.String()
	}
	if rs, ok := s.memo[key]; ok {
		return rs
	}
	sub.stack = append(append([]*ssa.Function{}, s.stack...), h)
	rs := sub.Run(h, args).Results
	s.memo[key] = rs
	return rs
}

func (a cval) String() string {
	switch {
	case a.top:
		return "T"
	case a.v != nil:
		return "#" + a.v.ExactString()
	case a.nil_:
		return "nil"
	case a.nonnil:
		return "!nil"
	}
	return a.sym
}

func negSym(s string) string {
	if len(s) > 0 && s[0] == '-' {
		return s[1:]
	}
	return "-" + s
}

// reachWalk visits every call that remains possible under the assumptions of
// s, descending into callees when on says so.
type reachWalk struct {
	s  *sccp
	on func(f *ssa.Function, ci ssa.CallInstruction, args []cval, r *sccpResult) bool
	// at sees every analysed function body
	at func(f *ssa.Function, r *sccpResult)
	n  int
}

func (w *reachWalk) Run(f *ssa.Function, args []cval, depth int) *sccpResult {
	r := w.s.Run(f, args)
	w.n++
	if w.n > 4000 {
		return r
	}
	if w.at != nil {
		w.at(f, r)
	}
	get := func(v ssa.Value) cval { return r.get(v) }
	for _, b := range f.Blocks {
		if !r.Reach[b] {
			continue
		}
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			var as []cval
			for _, a := range ci.Common().Args {
				as = append(as, get(a))
			}
			if w.on(f, ci, as, r) && depth > 0 {
				if g := staticCallee(ci.Common()); g != nil && len(g.Blocks) > 0 {
					w.Run(g, as, depth-1)
				}
			}
		}
	}
	return r
}

// get is the final value of v.
func (r *sccpResult) get(v ssa.Value) cval {
	if k, ok := v.(*ssa.Const); ok {
		if k.IsNil() {
			return cval{nil_: true}
		}
		if k.Value != nil {
			return cval{v: k.Value}
		}
		return cBottom
	}
	if c, ok := r.Val[v]; ok && !c.top {
		return c
	}
	return cBottom
}

// Int is the integer value, if known.
func (a cval) Int() (int, bool) {
	if a.top || a.v == nil || a.v.Kind() != constant.Int {
		return 0, false
	}
	n, ok := constant.Int64Val(a.v)
	return int(n), ok
}
func cInt(n int) cval { return cval{v: constant.MakeInt64(int64(n))} }
