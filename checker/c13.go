package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C13"] = checkC13 }

// checkC13: the books of the SAT core - original clauses, proof, facts,
// watches - agree with what the core does.
func checkC13(c *Ctx) {
	c.Rule("original", "with proof generation every clause given to the solver is recorded with its proposition before it is simplified, and before any way out", 2)
	c.Rule("learnt", "with proof generation a learnt clause is written to the proof, as it is, before it is used", 1)
	c.Rule("simplified", "a clause that loses a false literal when it is added is written to the proof in its new form, and its old form as deleted", 2)
	c.Rule("proof-form", "every line of the proof, and every original clause, holds all literals of its clause, in one and the same form: number of the variable plus one, negative for a negative literal", 2)
	c.Rule("proof-mark", "a line of the proof starts with the mark for an addition or a deletion, and a deletion is written only for a clause that is removed", 2)
	c.Rule("read-back", "the literals of a core are read back in the form they were written", 2)
	c.Rule("assumption", "with proof generation an assumption that is used is recorded with the proposition of that assumption", 2)
	c.Rule("fact", "a literal that is fixed for good is remembered as unit clause: a restored state knows it again", 3)
	c.Rule("watch", "a clause is entered in the watch lists of its literals, and taken out of exactly those", 2)
	if c.fixture {
		return
	}
	b := &books{p: c.P, c: c, evs: map[*ssa.Function][]logEv{}, open: map[string]bool{}}
	b.run()
}

type books struct {
	p    *Program
	c    *Ctx
	evs  map[*ssa.Function][]logEv
	busy map[*ssa.Function]bool
	open map[string]bool
	opl  []string
}

func (b *books) openf(key, pos, why string) {
	s := key + " (" + pos + "): " + why
	if !b.open[s] {
		b.open[s] = true
		b.opl = append(b.opl, s)
	}
}

const coreT = "sat.CoreSolver."

// ---------------------------------------------------------------- terms

// term names a value so that two reads of the same thing have the same name.
// Parameters are $0, $1, …; loop variables are φ; small accessors are looked
// through.
func term(v ssa.Value, d int) string {
	if d > 12 {
		return "…"
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return x.Value.ExactString()
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				return fmt.Sprintf("$%d", i)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return term(x.X, d+1)
		}
		return x.Op.String() + term(x.X, d+1)
	case *ssa.FieldAddr:
		return stripEmb(x.X, d) + "." + fieldName(deref(x.X.Type()), x.Field)
	case *ssa.Field:
		return stripEmb(x.X, d) + "." + fieldName(deref(x.X.Type()), x.Field)
	case *ssa.IndexAddr:
		return term(x.X, d+1) + "[" + term(x.Index, d+1) + "]"
	case *ssa.Index:
		return term(x.X, d+1) + "[" + term(x.Index, d+1) + "]"
	case *ssa.Convert:
		return term(x.X, d+1)
	case *ssa.ChangeType:
		return term(x.X, d+1)
	case *ssa.BinOp:
		return "(" + term(x.X, d+1) + x.Op.String() + term(x.Y, d+1) + ")"
	case *ssa.Phi:
		return "φ" + x.Name()
	case *ssa.Alloc:
		return "&" + x.Name()
	case *ssa.Slice:
		if x.Low == nil && x.High == nil && x.Max == nil {
			if a, ok := x.X.(*ssa.Alloc); ok {
				return "&" + a.Name()
			}
			return term(x.X, d+1)
		}
		return x.Name()
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return "len(" + term(x.Call.Args[0], d+1) + ")"
		}
		if g := x.Call.StaticCallee(); g != nil && inModule(g) && len(g.Blocks) == 1 {
			ins := g.Blocks[0].Instrs
			if r, ok := ins[len(ins)-1].(*ssa.Return); ok && len(r.Results) == 1 && pureBlock(ins) {
				t := term(r.Results[0], d+1)
				return substTerm(t, x.Call.Args, d)
			}
		}
		return "call " + x.Name()
	case *ssa.Function:
		return x.String()
	}
	return v.Name()
}

// stripEmb: the fields of an embedded core are named from the whole.
func stripEmb(x ssa.Value, d int) string {
	return term(x, d+1)
}

func pureBlock(ins []ssa.Instruction) bool {
	for _, in := range ins {
		switch x := in.(type) {
		case *ssa.Store, *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Alloc:
			return false
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
			g := x.Call.StaticCallee()
			if g == nil || !inModule(g) || len(g.Blocks) != 1 || !pureBlock(g.Blocks[0].Instrs) {
				return false
			}
		}
	}
	return true
}

// substTerm puts the terms of the arguments for $i.
func substTerm(t string, args []ssa.Value, d int) string {
	ts := make([]string, len(args))
	for i, a := range args {
		ts[i] = term(a, d+1)
	}
	return substT(t, ts)
}

func substT(t string, args []string) string {
	var b strings.Builder
	for i := 0; i < len(t); i++ {
		if t[i] != '$' {
			b.WriteByte(t[i])
			continue
		}
		j := i + 1
		n := 0
		for j < len(t) && t[j] >= '0' && t[j] <= '9' {
			n = n*10 + int(t[j]-'0')
			j++
		}
		if n < len(args) {
			b.WriteString(args[n])
		} else {
			b.WriteString(t[i:j])
		}
		i = j - 1
	}
	return b.String()
}

// ------------------------------------------------- control flow with proofs

// known value of a condition when proofs are generated.
func proofCond(v ssa.Value) (bool, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			t, ok := proofCond(x.X)
			return !t, ok
		}
		if x.Op == token.MUL {
			if k, _ := addrFieldKey(x.X, 0); k == "sat.Config.ProofGeneration" {
				return true, true
			}
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && inModule(g) && len(g.Blocks) == 1 {
			ins := g.Blocks[0].Instrs
			if r, ok := ins[len(ins)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				return proofCond(r.Results[0])
			}
		}
	}
	return false, false
}

func proofSuccs(b *ssa.BasicBlock) []*ssa.BasicBlock {
	if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		if t, known := proofCond(iff.Cond); known {
			if t {
				return b.Succs[:1]
			}
			return b.Succs[1:2]
		}
	}
	return b.Succs
}

// avoids: from start (an instruction, or the entry when nil) one can get to a
// place where goal holds without passing an instruction where stop holds.
func avoids(f *ssa.Function, start ssa.Instruction, stop, goal func(ssa.Instruction) bool) ssa.Instruction {
	if len(f.Blocks) == 0 {
		return nil
	}
	scan := func(b *ssa.BasicBlock, from int) (ssa.Instruction, bool) {
		for _, in := range b.Instrs[from:] {
			if goal(in) {
				return in, true
			}
			if stop(in) {
				return nil, true
			}
		}
		return nil, false
	}
	b, from := f.Blocks[0], 0
	if start != nil {
		b = start.Block()
		for i, in := range b.Instrs {
			if in == start {
				from = i + 1
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	if hit, end := scan(b, from); end {
		return hit
	}
	work := append([]*ssa.BasicBlock{}, proofSuccs(b)...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		hit, end := scan(x, 0)
		if hit != nil {
			return hit
		}
		if !end {
			work = append(work, proofSuccs(x)...)
		}
	}
	return nil
}

// ---------------------------------------------------------------- events

// vecD describes a line that is written: its mark, and of what it is made.
type vecD struct {
	mark    string // "", "1", "-1", "0"
	src     string // term of the slice (or clause data) whose literals it holds
	single  string // term of the one literal it holds
	problem string
	unknown string
}

type logEv struct {
	in    ssa.Instruction
	field string // pgProof, pgOriginalClauses, unitClauses, trailLim, learnts
	vec   vecD
	prop  string // term of the proposition
	elem  string // term of the appended element
}

// appended: the elements appended to a field of the core by a store.
func appendedTo(in ssa.Instruction) (string, []ssa.Value) {
	st, ok := in.(*ssa.Store)
	if !ok {
		return "", nil
	}
	k, el := addrFieldKey(st.Addr, 0)
	if el || !strings.HasPrefix(k, coreT) {
		return "", nil
	}
	call, ok := st.Val.(*ssa.Call)
	if !ok {
		return "", nil
	}
	if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" || len(call.Call.Args) != 2 {
		return "", nil
	}
	if k2, _ := valueFieldKey(call.Call.Args[0], 0); k2 != k {
		return "", nil
	}
	return strings.TrimPrefix(k, coreT), varargs(call.Call.Args[1])
}

// varargs: the values of a slice written as a list.
func varargs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]ssa.Value, at.Len())
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		n, ok := intConst(ia.Index)
		if !ok || n < 0 || n >= len(out) {
			return nil
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
				out[n] = st.Val
			}
		}
	}
	for _, o := range out {
		if o == nil {
			return nil
		}
	}
	return out
}

// events of a function: its own and those of what it always calls.
func (b *books) events(f *ssa.Function) []logEv {
	if e, ok := b.evs[f]; ok {
		return e
	}
	b.evs[f] = nil
	var out []logEv
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			if fld, els := appendedTo(in); fld != "" {
				for _, e := range els {
					ev := logEv{in: in, field: fld, elem: term(e, 0)}
					switch fld {
					case "pgProof":
						ev.vec = b.vec(f, e, 0)
					case "pgOriginalClauses":
						cl, pr := b.infoParts(e)
						if cl != nil {
							ev.vec = b.vec(f, cl, 0)
						} else {
							ev.vec.unknown = "the record cannot be followed"
						}
						if pr != nil {
							ev.prop = term(pr, 0)
						}
					}
					out = append(out, ev)
				}
				continue
			}
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Call.StaticCallee()
			if g == nil || g == f || !inModule(g) || shortPkg(pkgOf(g)) != "sat" {
				continue
			}
			for _, e := range b.events(g) {
				if avoids(g, nil, func(i ssa.Instruction) bool { return i == e.in }, isReturn) != nil {
					continue // not always
				}
				ev := e
				ev.in = in
				s := func(t string) string {
					if strings.Contains(t, "φ") || strings.Contains(t, "&") || strings.Contains(t, "call ") {
						return t + " in " + g.Name()
					}
					return substTerm(t, call.Call.Args, 0)
				}
				if e.vec.src != "" {
					ev.vec.src = s(e.vec.src)
				}
				if e.vec.single != "" {
					ev.vec.single = s(e.vec.single)
				}
				if strings.HasPrefix(e.vec.mark, "$") {
					ev.vec.mark = s(e.vec.mark)
				}
				ev.prop, ev.elem = s(e.prop), s(e.elem)
				// a line built by the caller
				if e.vec.unknown != "" && strings.HasPrefix(e.elem, "$") {
					var n int
					if _, err := fmt.Sscanf(e.elem, "$%d", &n); err == nil && n < len(call.Call.Args) {
						ev.vec = b.vec(f, call.Call.Args[n], 0)
					}
				}
				out = append(out, ev)
			}
		}
	}
	b.evs[f] = out
	return out
}

func isReturn(in ssa.Instruction) bool {
	_, ok := in.(*ssa.Return)
	return ok
}

// infoParts: clause and proposition of a proofInformation value.
func (b *books) infoParts(v ssa.Value) (cl, pr ssa.Value) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, nil
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return nil, nil
	}
	for _, r := range *al.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			// stored as a whole from another literal
			if st, ok := r.(*ssa.Store); ok && st.Addr == al {
				return b.infoParts(st.Val)
			}
			continue
		}
		for _, r2 := range *fa.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
				switch fieldName(fa.X.Type(), fa.Field) {
				case "clause":
					cl = st.Val
				case "proposition":
					pr = st.Val
				}
			}
		}
	}
	return cl, pr
}

// vec describes a line of literals.
func (b *books) vec(f *ssa.Function, v ssa.Value, d int) vecD {
	if d > 4 {
		return vecD{unknown: "too deep"}
	}
	switch x := v.(type) {
	case *ssa.Slice:
		if els := varargs(x); els != nil {
			return b.listVec(f, els)
		}
		if al, ok := x.X.(*ssa.Alloc); ok { // make with constant length
			return b.filled(f, x, al)
		}
	case *ssa.MakeSlice:
		return b.filled(f, x, x)
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && inModule(g) && g.Blocks != nil {
			var out *vecD
			for _, bl := range g.Blocks {
				if r, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					w := b.vec(g, r.Results[0], d+1)
					if out != nil && *out != w {
						return vecD{unknown: "several results of " + g.Name()}
					}
					out = &w
				}
			}
			if out == nil {
				return vecD{unknown: "the result of " + g.Name()}
			}
			w := *out
			if w.src != "" {
				w.src = substTerm(w.src, x.Call.Args, 0)
			}
			if w.single != "" {
				w.single = substTerm(w.single, x.Call.Args, 0)
			}
			if strings.HasPrefix(w.mark, "$") {
				w.mark = substTerm(w.mark, x.Call.Args, 0)
			}
			return w
		}
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return b.chain(f, x)
		}
	case *ssa.Phi:
		return b.chain(f, x)
	}
	return vecD{unknown: "a line that cannot be followed"}
}

func (b *books) listVec(f *ssa.Function, els []ssa.Value) vecD {
	switch len(els) {
	case 0:
		return vecD{unknown: "an empty list"}
	case 1:
		if n, ok := intConst(els[0]); ok {
			return vecD{mark: fmt.Sprint(n)}
		}
		return b.one(f, "", els[0])
	case 2:
		if n, ok := intConst(els[0]); ok {
			return b.one(f, fmt.Sprint(n), els[1])
		}
	}
	return vecD{unknown: "a list of literals"}
}

func (b *books) one(f *ssa.Function, mark string, v ssa.Value) vecD {
	leaf, prob := b.conv(f, v)
	if leaf == "" && prob == "" {
		return vecD{mark: mark, unknown: "the form of the literal cannot be followed"}
	}
	return vecD{mark: mark, single: leaf, problem: prob}
}

// filled: a slice that is made and then filled in a loop.
func (b *books) filled(f *ssa.Function, v ssa.Value, base ssa.Value) vecD {
	out := vecD{}
	n := 0
	var length ssa.Value
	if m, ok := v.(*ssa.MakeSlice); ok {
		length = m.Len
	}
	var visit func(w ssa.Value) bool
	visit = func(w ssa.Value) bool {
		for _, r := range *w.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, r2 := range *ia.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok || st.Addr != ia {
					continue
				}
				if i, ok := intConst(ia.Index); ok && i == 0 {
					if m, ok := intConst(st.Val); ok {
						out.mark = fmt.Sprint(m)
						continue
					}
					if _, ok := st.Val.(*ssa.Parameter); ok {
						out.mark = term(st.Val, 0)
						continue
					}
				}
				n++
				b.loopStore(f, st.Val, ia.Index, length, out.mark != "", &out)
			}
		}
		return true
	}
	visit(v)
	if base != v {
		visit(base)
	}
	if n == 0 && out.unknown == "" && out.problem == "" {
		// nothing but a mark: all literals are missing
		if out.mark == "" {
			out.unknown = "a line that is not filled here"
		} else if length == nil {
			return out
		} else {
			out.problem = "the literals of the clause are not written"
		}
	}
	if n > 1 && out.problem == "" {
		out.unknown = "a line that is filled at several places"
	}
	return out
}

// loopStore: line[i+k] = form(src[i]) in a loop over all of src.
func (b *books) loopStore(f *ssa.Function, val, index, length ssa.Value, marked bool, out *vecD) {
	leaf, prob := b.conv(f, val)
	if prob != "" {
		out.problem = prob
		return
	}
	if leaf == "" {
		out.unknown = "the form of the literals cannot be followed"
		return
	}
	i := strings.LastIndex(leaf, "[")
	if i < 0 || !strings.HasSuffix(leaf, "]") {
		out.unknown = "the literals are not read from a slice"
		return
	}
	src, at := leaf[:i], leaf[i+1:len(leaf)-1]
	out.src = src
	// the index of the line against the index of the source
	k := 0
	iv := index
	if bo, ok := index.(*ssa.BinOp); ok && bo.Op == token.ADD {
		if n, ok := intConst(bo.Y); ok {
			if term(bo.X, 0) == at {
				iv, k = bo.X, n
			}
		}
	}
	if term(iv, 0) != at {
		out.unknown = "the places of the literals cannot be compared"
		return
	}
	want := 0
	if marked || k != 0 {
		want = 1
	}
	if marked && k != 1 {
		out.problem = "the first literal is written over the mark of the line"
		return
	}
	if k != want {
		out.unknown = "the places of the literals"
		return
	}
	// the length of the line
	if length != nil {
		lt := term(length, 0)
		ok := lt == "len("+src+")" && k == 0 || lt == "(len("+src+")+1)" && k == 1 || lt == "(1+len("+src+"))" && k == 1
		if !ok {
			if strings.HasPrefix(lt, "len(") || strings.HasPrefix(lt, "(len(") && strings.HasSuffix(lt, "+1)") {
				out.problem = "the line is as long as another clause than the one it is made of"
			}
			out.unknown = "the length of the line is " + lt
		}
	}
	// the loop runs over all of src
	if msg := b.fullLoop(iv, src); msg != "" {
		if strings.HasPrefix(msg, "!") {
			out.problem = msg[1:]
		} else {
			out.unknown = msg
		}
	}
}

// fullLoop: iv runs from 0 to len(src)-1.
func (b *books) fullLoop(iv ssa.Value, src string) string {
	var ph *ssa.Phi
	start := 0
	switch x := iv.(type) {
	case *ssa.Phi:
		ph = x
	case *ssa.BinOp: // range: the index is φ+1, φ starts at -1
		if n, ok := intConst(x.Y); ok && x.Op == token.ADD && n == 1 {
			ph, _ = x.X.(*ssa.Phi)
			start = -1
		}
	}
	if ph == nil {
		return "the loop cannot be followed"
	}
	first, stepOK := false, false
	for _, e := range ph.Edges {
		if n, ok := intConst(e); ok {
			first = true
			if n > start {
				return "!the loop leaves out the first literals"
			}
			continue
		}
		if bo, ok := e.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == ph {
			if n, ok := intConst(bo.Y); ok {
				stepOK = n == 1
				if n > 1 {
					return "!the loop leaves out literals"
				}
			}
		}
	}
	if !first || !stepOK {
		return "the steps of the loop cannot be followed"
	}
	for _, r := range *iv.Referrers() {
		bo, ok := r.(*ssa.BinOp)
		if !ok || bo.X != iv || bo.Op != token.LSS {
			continue
		}
		t := term(bo.Y, 0)
		if t == "len("+src+")" {
			return ""
		}
		if strings.HasPrefix(t, "(len("+src+")-") {
			return "!the loop leaves out the last literals"
		}
		if strings.HasPrefix(t, "len(") {
			return "!the loop runs over another clause than the one it writes"
		}
	}
	return "the bound of the loop cannot be followed"
}

// chain: a line that is built with append in a loop.
func (b *books) chain(f *ssa.Function, v ssa.Value) vecD {
	out := vecD{}
	seen := map[ssa.Value]bool{}
	n := 0
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(x.Call.Args) == 2 {
				walk(x.Call.Args[0])
				els := varargs(x.Call.Args[1])
				if len(els) == 1 {
					if m, ok := intConst(els[0]); ok {
						out.mark = fmt.Sprint(m)
						return
					}
					n++
					leaf, prob := b.conv(f, els[0])
					if prob != "" {
						out.problem = prob
						return
					}
					i := strings.LastIndex(leaf, "[")
					if i < 0 {
						out.unknown = "the literals are not read from a slice"
						return
					}
					out.src = leaf[:i]
					return
				}
			}
			out.unknown = "a line that cannot be followed"
		case *ssa.Slice:
			els := varargs(x)
			if len(els) == 1 {
				if m, ok := intConst(els[0]); ok {
					out.mark = fmt.Sprint(m)
					return
				}
			}
			if al, ok := x.X.(*ssa.Alloc); ok && els == nil {
				_ = al
				return // empty with capacity
			}
			out.unknown = "a line that cannot be followed"
		case *ssa.MakeSlice:
			if n, ok := intConst(x.Len); !ok || n != 0 {
				out.problem = "the literals are appended after empty ones"
			}
		case *ssa.Const:
		default:
			out.unknown = "a line that cannot be followed"
		}
	}
	walk(v)
	if n != 1 && out.problem == "" && out.unknown == "" {
		out.unknown = "a line that is filled at several places"
	}
	return out
}

// conv: v is the proof form of one literal; returns the term of that literal.
func (b *books) conv(f *ssa.Function, v ssa.Value) (string, string) {
	// the number the form is made of: what all the leaves are
	leaves := map[string]bool{}
	var walk func(v ssa.Value, d int)
	seen := map[ssa.Value]bool{}
	walk = func(v ssa.Value, d int) {
		if d > 20 || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
		case *ssa.BinOp:
			walk(x.X, d+1)
			walk(x.Y, d+1)
		case *ssa.Convert:
			walk(x.X, d+1)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				leaves[term(v, 0)] = true
				return
			}
			walk(x.X, d+1)
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g != nil && shortPkg(pkgOf(g)) == "sat" && len(g.Params) == 1 && isInt32(g.Params[0].Type()) {
				walk(x.Call.Args[0], d+1)
				return
			}
			leaves[term(v, 0)] = true
		case *ssa.Phi:
			if len(x.Edges) == 2 && x.Block().Idom() != nil {
				if iff, ok := x.Block().Idom().Instrs[len(x.Block().Idom().Instrs)-1].(*ssa.If); ok && len(x.Block().Preds) == 2 && !dominates2(x.Block(), x.Block().Preds) {
					walk(iff.Cond, d+1)
					for _, e := range x.Edges {
						walk(e, d+1)
					}
					return
				}
			}
			leaves[term(v, 0)] = true
		default:
			leaves[term(v, 0)] = true
		}
	}
	walk(v, 0)
	if len(leaves) != 1 {
		return "", ""
	}
	var leaf string
	for l := range leaves {
		leaf = l
	}
	for lit := 0; lit < 8; lit++ {
		want := int64(lit/2 + 1)
		if lit%2 == 1 {
			want = -want
		}
		s := &sccp{p: b.p, maxD: 4, Fix: func(x ssa.Value) (cval, bool) {
			if x.Parent() == f && isInt32(x.Type()) && term(x, 0) == leaf {
				return cInt(lit), true
			}
			if t, ok := proofCond(x); ok {
				return cval{v: constant.MakeBool(t)}, true
			}
			return cval{}, false
		}}
		var args []cval
		for k, p := range f.Params {
			a := cBottom
			if isInt32(p.Type()) && fmt.Sprintf("$%d", k) == leaf {
				a = cInt(lit)
			}
			args = append(args, a)
		}
		r := s.Run(f, args)
		got := r.get(v)
		if got.v == nil || got.v.Kind() != constant.Int {
			return "", ""
		}
		if n, ok := constant.Int64Val(got.v); !ok || n != want {
			return leaf, fmt.Sprintf("the solver literal %d is written as %s, not as %d", lit, got.v.ExactString(), want)
		}
	}
	return leaf, ""
}

func dominates2(b *ssa.BasicBlock, preds []*ssa.BasicBlock) bool {
	for _, p := range preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- the rules

func (b *books) run() {
	p := b.p
	var fns []*ssa.Function
	for _, f := range p.Funcs {
		if shortPkg(pkgOf(f)) == "sat" && f.Blocks != nil && f.Synthetic == "" && len(f.TypeArgs()) == 0 {
			fns = append(fns, f)
		}
	}
	if len(fns) == 0 {
		return
	}
	for _, f := range fns {
		b.lines(f)
		b.original(f)
		b.learnt(f)
		b.simplified(f)
		b.assumption(f)
		b.facts(f)
	}
	for _, f := range fns {
		b.lemmaStart(f)
	}
	b.readBack()
	b.coreProps()
	b.watch(fns)
	if len(b.opl) > 0 {
		b.c.Extra["open"] = b.opl
	}
}

// own events: those whose instruction is the append itself.
func ownEv(e logEv) bool {
	f, _ := appendedTo(e.in)
	return f != ""
}

// lines: form and mark of what is written.
func (b *books) lines(f *ssa.Function) {
	for _, e := range b.events(f) {
		if e.field != "pgProof" && e.field != "pgOriginalClauses" {
			continue
		}
		if !ownEv(e) {
			continue
		}
		key := rel(f) + " " + e.field
		pos := b.p.pos(e.in.Pos())
		if e.vec.problem == "" && e.vec.unknown != "" && !strings.HasPrefix(e.elem, "$") {
			b.openf(key, pos, e.vec.unknown)
			continue
		}
		if e.vec.problem == "" && e.vec.unknown != "" {
			continue // built by the caller
		}
		if e.vec.mark != "0" {
			b.c.Cond(e.vec.problem == "", "proof-form", key+" "+e.vec.mark, pos, e.vec.problem)
		}
		if e.field == "pgOriginalClauses" {
			b.c.Cond(e.vec.mark == "", "proof-mark", key, pos, "an original clause starts with a mark")
			continue
		}
		if strings.HasPrefix(e.vec.mark, "$") {
			continue
		}
		ok := e.vec.mark == "1" || e.vec.mark == "-1" || e.vec.mark == "0" && e.vec.src == "" && e.vec.single == ""
		b.c.Cond(ok, "proof-mark", key+" "+e.vec.mark, pos, fmt.Sprintf("the line starts with %q: neither an addition nor a deletion", e.vec.mark))
	}
	// a deletion is written only in functions that remove the clause or write
	// its new form
	for _, e := range b.events(f) {
		if e.field != "pgProof" || e.vec.mark != "-1" || e.vec.src == "" || !ownEv(e) {
			continue
		}
		key := rel(f) + " deletion of " + e.vec.src
		pos := b.p.pos(e.in.Pos())
		ok := false
		if strings.HasSuffix(e.vec.src, ".data") {
			ok = b.removedBy(f, e.in, strings.TrimSuffix(e.vec.src, ".data"), 0)
		} else {
			for _, e2 := range b.events(f) {
				if e2.field == "pgProof" && e2.vec.mark == "1" && e2.in != e.in {
					ok = true
				}
			}
		}
		b.c.Cond(ok, "proof-mark", key, pos, "a clause is written as deleted that is neither removed nor replaced here")
	}
}

// removedBy: where at is done, f takes the clause cl out too, or, when it is
// given cl, all that call f do.
func (b *books) removedBy(f *ssa.Function, at ssa.Instruction, cl string, d int) bool {
	out := map[ssa.Instruction]bool{}
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			if call, isC := in.(*ssa.Call); isC && in != at {
				for i, a := range call.Call.Args {
					if i > 0 && term(a, 0) == cl && b.removes(call.Call.StaticCallee(), 0) {
						out[in] = true
						if in.Block().Dominates(at.Block()) && (in.Block() != at.Block() || sameOrBefore(in, at)) {
							return true
						}
					}
				}
			}
		}
	}
	if len(out) > 0 && avoids(f, at, func(i ssa.Instruction) bool { return out[i] }, isReturn) == nil {
		return true
	}
	var n int
	if _, err := fmt.Sscanf(cl, "$%d", &n); err != nil || cl != fmt.Sprintf("$%d", n) || d > 3 {
		return false
	}
	sites := b.p.callsOf(f)
	for _, cs := range sites {
		args := cs.Common().Args
		if n >= len(args) || !b.removedBy(cs.Parent(), cs.(ssa.Instruction), term(args[n], 0), d+1) {
			return false
		}
	}
	return len(sites) > 0
}

// removes: f takes its clause out of the watch lists.
func (b *books) removes(f *ssa.Function, d int) bool {
	if f == nil || d > 3 || !inModule(f) {
		return false
	}
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				g := call.Call.StaticCallee()
				if isRemoveWatcher(g) || g != f && b.removes(g, d+1) {
					return true
				}
			}
		}
	}
	return false
}

func isRemoveWatcher(g *ssa.Function) bool {
	if g == nil || len(g.Params) != 2 || g.Signature.Recv() != nil {
		return false
	}
	pt, ok := g.Params[0].Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = pt.Elem().Underlying().(*types.Slice)
	return ok && isNamed(deref(g.Params[1].Type()), "sat", "clause")
}

func isProposition(t types.Type) bool { return isNamed(t, "formula", "Proposition") }

// original: functions that are given a clause with its proposition.
func (b *books) original(f *ssa.Function) {
	if f.Signature.Recv() == nil || !isNamed(deref(f.Signature.Recv().Type()), "sat", "CoreSolver") {
		return
	}
	ci, pi := -1, -1
	for i, p := range f.Params {
		if isProposition(p.Type()) {
			pi = i
		}
		if s, ok := p.Type().Underlying().(*types.Slice); ok && isInt32(s.Elem()) || isInt32(p.Type()) {
			ci = i
		}
	}
	if ci < 0 || pi < 0 {
		return
	}
	key := rel(f)
	pos := b.p.pos(f.Pos())
	stops := map[ssa.Instruction]bool{}
	found := false
	for _, e := range b.events(f) {
		if e.field != "pgOriginalClauses" {
			continue
		}
		if e.prop != fmt.Sprintf("$%d", pi) {
			b.c.Bad("original", key+" proposition", b.p.pos(e.in.Pos()), "the clause is not recorded with the proposition it was given with")
			found = true
			stops[e.in] = true
			continue
		}
		if e.vec.src != "" && e.vec.src != fmt.Sprintf("$%d", ci) && strings.HasPrefix(e.vec.src, "$") {
			b.c.Bad("original", key+" literals", b.p.pos(e.in.Pos()), "not the clause that was given is recorded")
		}
		stops[e.in] = true
		found = true
		// not changed before
		if bad := avoids(f, nil, func(i ssa.Instruction) bool { return false }, func(i ssa.Instruction) bool {
			st, ok := i.(*ssa.Store)
			if !ok {
				return false
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || term(ia.X, 0) != fmt.Sprintf("$%d", ci) {
				return false
			}
			return avoids(f, i, func(ssa.Instruction) bool { return false }, func(j ssa.Instruction) bool { return j == e.in }) != nil
		}); bad != nil {
			b.c.Bad("original", key+" unchanged", b.p.pos(bad.Pos()), "the clause is changed before it is recorded")
		} else {
			b.c.Ok("original", key+" unchanged", pos)
		}
	}
	if !found {
		// a helper that neither attaches nor records is not meant
		if !b.entersClause(f, 0, map[*ssa.Function]bool{}) {
			return
		}
	}
	hit := avoids(f, nil, func(i ssa.Instruction) bool { return stops[i] }, isReturn)
	b.c.Cond(hit == nil, "original", key, pos, "with proof generation there is a way through that does not record the clause that was given")
}

// entersClause: f may put a clause into the clauses or a fact on the trail.
func (b *books) entersClause(f *ssa.Function, d int, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] || d > 4 {
		return false
	}
	seen[f] = true
	for _, e := range b.events(f) {
		if e.field == "clauses" || e.field == "unitClauses" {
			return true
		}
	}
	return false
}

func isNewClause(g *ssa.Function) bool {
	if g == nil || !inModule(g) || g.Signature.Results().Len() != 1 || len(g.Params) == 0 {
		return false
	}
	s, ok := g.Params[0].Type().Underlying().(*types.Slice)
	return ok && isInt32(s.Elem()) && isNamed(deref(g.Signature.Results().At(0).Type()), "sat", "clause")
}

func isEnqueue(call *ssa.Call) (lit, reason ssa.Value) {
	if call.Call.IsInvoke() || call.Call.StaticCallee() != nil {
		if g := call.Call.StaticCallee(); g == nil || g.Name() != "UncheckedEnqueue" {
			return nil, nil
		}
	} else if k, _ := valueFieldKey(call.Call.Value, 0); k != coreT+"enqueueFunction" {
		return nil, nil
	}
	a := call.Call.Args
	if len(a) != 3 {
		return nil, nil
	}
	return a[1], a[2]
}

// learnt: the clause that analyze makes.
func (b *books) learnt(f *ssa.Function) {
	if f.Signature.Recv() == nil || !isNamed(deref(f.Signature.Recv().Type()), "sat", "CoreSolver") {
		return
	}
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := call.Call.StaticCallee()
			if g == nil || !inModule(g) {
				continue
			}
			for i, a := range call.Call.Args {
				al, ok := a.(*ssa.Alloc)
				if !ok || i >= len(g.Params) || !writesLearnt(g, i) {
					continue
				}
				b.learntUses(f, in, "&"+al.Name(), rel(f), 0)
			}
			// the clause as a result
			if call.Type() != nil {
				if s, ok := call.Type().Underlying().(*types.Slice); ok && isInt32(s.Elem()) && returnsLearnt(g) {
					b.learntUses(f, in, term(call, 0), rel(f), 0)
				}
			}
		}
	}
}

// writesLearnt: parameter i of g is where analyze puts the learnt clause (a
// function on conflicts that calls simplification of the clause).
func writesLearnt(g *ssa.Function, i int) bool {
	pt, ok := g.Params[i].Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s, ok := pt.Elem().Underlying().(*types.Slice)
	if !ok || !isInt32(s.Elem()) {
		return false
	}
	for _, p := range g.Params {
		if isNamed(deref(p.Type()), "sat", "clause") {
			return true
		}
	}
	return false
}

func returnsLearnt(g *ssa.Function) bool {
	if g.Signature.Recv() == nil {
		return false
	}
	n := 0
	for _, p := range g.Params {
		if isNamed(deref(p.Type()), "sat", "clause") {
			n++
		}
	}
	return n == 1
}

func (b *books) learntUses(f *ssa.Function, from ssa.Instruction, src, key string, d int) {
	stops := map[ssa.Instruction]bool{}
	for _, e := range b.events(f) {
		if e.field == "pgProof" && e.vec.src == src && e.vec.mark == "1" {
			stops[e.in] = true
		}
	}
	n := 0
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			use := ""
			g := call.Call.StaticCallee()
			if isNewClause(g) && term(call.Call.Args[0], 0) == src {
				use = "clause"
			} else if l, r := isEnqueue(call); l != nil && strings.HasPrefix(term(l, 0), src+"[") {
				use = "fact"
				if !isNilConst(r) {
					use = "implied literal"
				}
			} else if g != nil && inModule(g) && d < 3 && in != from {
				for i, a := range call.Call.Args {
					if term(a, 0) == src && i < len(g.Params) && b.usesLearnt(g, fmt.Sprintf("$%d", i)) {
						logged := avoids(f, from, func(i ssa.Instruction) bool { return stops[i] }, func(i ssa.Instruction) bool { return i == in }) == nil
						n++
						if logged {
							b.c.Ok("learnt", key+" "+rel(g), b.p.pos(in.Pos()))
						} else {
							b.learntUses(g, nil, fmt.Sprintf("$%d", i), rel(g), d+1)
						}
					}
				}
				continue
			}
			if use == "" {
				continue
			}
			n++
			hit := avoids(f, from, func(i ssa.Instruction) bool { return stops[i] }, func(i ssa.Instruction) bool { return i == in })
			b.c.Cond(hit == nil, "learnt", key+" "+use, b.p.pos(in.Pos()), "with proof generation the learnt clause is used as "+use+" without having been written to the proof as it is")
		}
	}
	if n == 0 {
		b.openf(key, b.p.pos(f.Pos()), "no use of the learnt clause found")
	}
}

func (b *books) usesLearnt(g *ssa.Function, src string) bool {
	for _, bl := range g.Blocks {
		for _, in := range bl.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if isNewClause(call.Call.StaticCallee()) && term(call.Call.Args[0], 0) == src {
					return true
				}
				if l, _ := isEnqueue(call); l != nil && strings.HasPrefix(term(l, 0), src+"[") {
					return true
				}
			}
		}
	}
	return false
}

// simplified: AddClause drops false literals.
func (b *books) simplified(f *ssa.Function) {
	var add, del *logEv
	for i, e := range b.events(f) {
		if e.field != "pgProof" || e.vec.src == "" {
			continue
		}
		switch e.vec.mark {
		case "1":
			add = &b.evs[f][i]
		case "-1":
			del = &b.evs[f][i]
		}
	}
	drops := b.dropsFalse(f)
	if !drops {
		return
	}
	key := rel(f)
	pos := b.p.pos(f.Pos())
	b.c.Cond(add != nil, "simplified", key+" new form", pos, "a clause that has lost a false literal is not written to the proof in its new form")
	b.c.Cond(del != nil, "simplified", key+" old form", pos, "a clause that has lost a false literal is not written to the proof as deleted in its old form")
	if add == nil || del == nil {
		return
	}
	if add.in.Block() != del.in.Block() {
		// the loops that fill the lines are between the two
		b.c.Cond(postDominated(add.in.Block(), del.in.Block()) && (add.in.Block().Dominates(del.in.Block())) || postDominated(del.in.Block(), add.in.Block()) && del.in.Block().Dominates(add.in.Block()),
			"simplified", key+" both", pos, "the new and the old form are not written together")
	}
	// under which condition
	var first *ssa.BasicBlock = add.in.Block()
	if del.in.Block().Dominates(first) {
		first = del.in.Block()
	}
	var cond ssa.Value
	val := true
	for _, a := range armsOf(first) {
		if _, known := proofCond(a.cond); known {
			continue
		}
		if bt, ok := a.cond.(*ssa.BinOp); ok && (bt.Op == token.LSS || bt.Op == token.GTR) {
			continue // a loop before
		}
		cond, val = a.cond, a.val
		break
	}
	ph, ok := cond.(*ssa.Phi)
	if !ok || !val {
		b.openf(key, pos, "the condition under which a simplified clause is written cannot be followed")
		return
	}
	// when every literal is false, the loop that looks for it must answer yes
	s := &sccp{p: b.p, maxD: 3, Fix: func(x ssa.Value) (cval, bool) {
		if call, ok := x.(*ssa.Call); ok && isNamed(call.Type(), "formula", "Tristate") && len(call.Call.Args) > 1 && isInt32(call.Call.Args[len(call.Call.Args)-1].Type()) {
			if v, ok := b.tristate(call.Type(), "TristateFalse"); ok {
				return cval{v: v}, true
			}
		}
		if t, ok := proofCond(x); ok {
			return cval{v: constant.MakeBool(t)}, true
		}
		return cval{}, false
	}}
	r := s.Run(f, nil)
	var find func(ph *ssa.Phi, d int) (bool, bool)
	find = func(ph *ssa.Phi, d int) (bool, bool) { // found a back edge, and it is true
		if d > 4 {
			return false, false
		}
		for i, e := range ph.Edges {
			if ph.Block().Dominates(ph.Block().Preds[i]) {
				v := r.get(e)
				return true, v.v != nil && v.v.Kind() == constant.Bool && constant.BoolVal(v.v)
			}
		}
		for _, e := range ph.Edges {
			if p2, ok := e.(*ssa.Phi); ok {
				if k, t := find(p2, d+1); k {
					return k, t
				}
			}
		}
		return false, false
	}
	back, yes := find(ph, 0)
	if !back {
		b.openf(key, pos, "the condition under which a simplified clause is written cannot be followed")
		return
	}
	b.c.Cond(yes, "simplified", key+" condition", b.p.pos(ph.Pos()), "when a literal of the clause is false, and is dropped, the proof is not told")
}

func (b *books) tristate(t types.Type, name string) (constant.Value, bool) {
	for i := int64(-2); i < 5; i++ {
		if b.p.enumName(t, fmt.Sprint(i)) == name {
			return constant.MakeInt64(i), true
		}
	}
	return nil, false
}

// dropsFalse: f overwrites the literals of a clause it is given (compacting
// it), and attaches clauses that may be logged.
func (b *books) dropsFalse(f *ssa.Function) bool {
	orig := false
	for _, e := range b.events(f) {
		if e.field == "pgOriginalClauses" && ownEv(e) || e.field == "pgOriginalClauses" && e.prop != "" {
			orig = true
		}
	}
	if !orig {
		return false
	}
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
					if _, ok := ia.X.(*ssa.Parameter); ok && isInt32(st.Val.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// assumption: what search does with the assumptions.
func (b *books) assumption(f *ssa.Function) {
	isA := func(t string) (string, bool) {
		i := strings.Index(t, ".assumptions[")
		if i < 0 || !strings.HasSuffix(t, "]") {
			return "", false
		}
		return t[i+len(".assumptions[") : len(t)-1], true
	}
	stops := map[ssa.Instruction]bool{}
	for _, e := range b.events(f) {
		if e.field != "pgOriginalClauses" || e.vec.single == "" {
			continue
		}
		at, ok := isA(e.vec.single)
		if !ok {
			continue
		}
		stops[e.in] = true
		i := strings.Index(e.prop, ".assumptionProps[")
		okp := i >= 0 && e.prop[i+len(".assumptionProps["):len(e.prop)-1] == at && !b.staleLevel(f, e.in)
		b.c.Cond(okp, "assumption", rel(f)+" proposition", b.p.pos(e.in.Pos()), "the assumption is not recorded with the proposition at its own place")
	}
	if f.Signature.Recv() == nil || !isNamed(deref(f.Signature.Recv().Type()), "sat", "CoreSolver") {
		return
	}
	// where an assumption is not yet true
	for _, bl := range f.Blocks {
		iff, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		call, ok := bo.X.(*ssa.Call)
		k, isK := bo.Y.(*ssa.Const)
		if !ok || !isK || k.Value == nil || !isNamed(call.Type(), "formula", "Tristate") || len(call.Call.Args) == 0 {
			continue
		}
		if _, ok := isA(term(call.Call.Args[len(call.Call.Args)-1], 0)); !ok {
			continue
		}
		if b.p.enumName(k.Type(), k.Value.ExactString()) != "TristateTrue" {
			continue
		}
		not := bl.Succs[1]
		if bo.Op == token.NEQ {
			not = bl.Succs[0]
		}
		first := not.Instrs[0]
		goal := func(in ssa.Instruction) bool {
			if isReturn(in) {
				return true
			}
			if c2, ok := in.(*ssa.Call); ok {
				l, _ := isEnqueue(c2)
				return l != nil
			}
			return false
		}
		if goal(first) {
			b.c.Bad("assumption", rel(f), b.p.pos(iff.Cond.Pos()), "an assumption is used without being recorded")
			continue
		}
		var hit ssa.Instruction
		if !stops[first] {
			hit = avoids(f, first, func(i ssa.Instruction) bool { return stops[i] }, goal)
		}
		msg := ""
		if hit != nil {
			msg = "with proof generation an assumption that is not yet true is used (" + b.p.pos(hit.Pos()) + ") without being recorded"
		}
		b.c.Cond(hit == nil, "assumption", rel(f)+" recorded", b.p.pos(iff.Cond.Pos()), msg)
	}
}

// staleLevel: between reading the number of levels and using it to find the
// assumption or its proposition, or between that and recording it, a level is
// opened.
func (b *books) staleLevel(f *ssa.Function, rec ssa.Instruction) bool {
	opens := map[ssa.Instruction]bool{}
	for _, e := range b.events(f) {
		if e.field == "trailLim" {
			opens[e.in] = true
		}
	}
	var ias []*ssa.IndexAddr
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if k, el := addrFieldKey(st.Addr, 0); k == coreT+"trailLim" && !el {
					opens[in] = true
				}
			}
			if ia, ok := in.(*ssa.IndexAddr); ok {
				if k, _ := valueFieldKey(ia.X, 0); k == coreT+"assumptions" || k == coreT+"assumptionProps" {
					ias = append(ias, ia)
				}
			}
		}
	}
	between := func(a, z ssa.Instruction) bool {
		stop := func(i ssa.Instruction) bool { return i == a }
		for o := range opens {
			if avoids(f, a, stop, func(i ssa.Instruction) bool { return i == o }) != nil &&
				avoids(f, o, stop, func(i ssa.Instruction) bool { return i == z }) != nil {
				return true
			}
		}
		return false
	}
	for _, ia := range ias {
		if d, ok := ia.Index.(ssa.Instruction); ok && strings.Contains(term(ia.Index, 0), ".trailLim") && between(d, ia) {
			return true
		}
		if between(ia, rec) && avoids(f, ia, func(i ssa.Instruction) bool { return opens[i] }, func(i ssa.Instruction) bool { return i == rec }) != nil {
			return true
		}
	}
	return false
}

// facts: literals that are enqueued without a reason.
func (b *books) facts(f *ssa.Function) {
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			l, r := isEnqueue(call)
			if l == nil || !isNilConst(r) {
				continue
			}
			lt := term(l, 0)
			key := rel(f) + " " + shorten(lt)
			pos := b.p.pos(in.Pos())
			if strings.Contains(lt, ".unitClauses[") {
				b.c.Ok("fact", rel(f)+" replayed", pos)
				continue
			}
			done := false
			for _, e := range b.events(f) {
				if e.field == "trailLim" && sameOrBefore(e.in, in) {
					b.c.Ok("fact", rel(f)+" decision", pos)
					done = true
					break
				}
				if e.field == "unitClauses" && e.elem == lt && together(e.in, in) {
					b.c.Ok("fact", key, pos)
					done = true
					break
				}
			}
			if done {
				continue
			}
			// a helper: its callers remember the literal
			if n := paramOf(l); n >= 0 {
				all := true
				sites := b.p.callsOf(f)
				for _, cs := range sites {
					okc := false
					caller := cs.Parent()
					args := cs.Common().Args
					for _, e := range b.events(caller) {
						if (e.field == "unitClauses" && n < len(args) && e.elem == term(args[n], 0) || e.field == "trailLim") && together(e.in, cs.(ssa.Instruction)) {
							okc = true
						}
					}
					all = all && okc
				}
				if all && len(sites) > 0 {
					b.c.Ok("fact", key, pos)
					continue
				}
			}
			b.c.Bad("fact", key, pos, "the literal is fixed without being remembered as unit clause (and without opening a decision level): a restored state does not know it")
		}
	}
}

func shorten(s string) string {
	if len(s) > 40 {
		return s[:40] + "…"
	}
	return s
}

func paramOf(v ssa.Value) int {
	if p, ok := v.(*ssa.Parameter); ok {
		for i, q := range p.Parent().Params {
			if q == p {
				return i
			}
		}
	}
	return -1
}

func sameOrBefore(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return false
}

// readBack: the inverse of the proof form.
func (b *books) readBack() {
	for _, f := range b.p.Funcs {
		if shortPkg(pkgOf(f)) != "sat" || f.Blocks == nil {
			continue
		}
		// reads idx2name at something made of an element of a parameter
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				name, phase := literalMaker(call)
				if name == nil {
					continue
				}
				lk, ok := name.(*ssa.Lookup)
				if !ok {
					if ex, ok2 := name.(*ssa.Extract); ok2 {
						lk, ok = ex.Tuple.(*ssa.Lookup)
					}
				}
				if !ok || lk == nil {
					continue
				}
				if k, _ := valueFieldKey(lk.X, 0); k != coreT+"idx2name" {
					continue
				}
				leafI := signedLeaf(lk.Index)
				if leafI == "" {
					continue
				}
				for _, d := range []int{1, -1, 2, -2, 5, -5} {
					s := &sccp{p: b.p, maxD: 4, Fix: func(x ssa.Value) (cval, bool) {
						if x.Parent() == f && isInt32(x.Type()) && term(x, 0) == leafI {
							return cInt(d), true
						}
						return cval{}, false
					}, FixG: absFix}
					r := s.Run(f, nil)
					idx, ph := r.get(lk.Index), r.get(phase)
					abs := d
					if d < 0 {
						abs = -d
					}
					if idx.v == nil || ph.v == nil {
						b.openf(rel(f), b.p.pos(in.Pos()), "the reading of a proof literal cannot be evaluated")
						break
					}
					n, _ := constant.Int64Val(constant.ToInt(idx.v))
					b.c.Cond(n == int64(abs-1), "read-back", rel(f)+fmt.Sprintf(" variable of %d", d), b.p.pos(in.Pos()), fmt.Sprintf("the proof literal %d is read as variable %d", d, n))
					b.c.Cond(constant.BoolVal(ph.v) == (d > 0), "read-back", rel(f)+fmt.Sprintf(" phase of %d", d), b.p.pos(in.Pos()), fmt.Sprintf("the proof literal %d is read with phase %v", d, constant.BoolVal(ph.v)))
				}
			}
		}
	}
}

// lemmaStart: where the lemmas start is fixed with the first of them: it is
// not set again when the counter that told the first one has gone on.
func (b *books) lemmaStart(f *ssa.Function) {
	var stores []*ssa.Store
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if k, el := addrFieldKey(st.Addr, 0); k == "sat.drupSolver.lemmas" && !el {
					if _, ok := st.Val.(*ssa.Const); !ok {
						stores = append(stores, st)
					}
				}
			}
		}
	}
	if len(stores) == 0 {
		return
	}
	var counter ssa.Value
	var at int
	for _, st := range stores {
		for _, a := range armsOf(st.Block()) {
			if bo, ok := a.cond.(*ssa.BinOp); ok && (bo.Op == token.EQL && a.val || bo.Op == token.NEQ && !a.val) {
				if n, ok := intConst(bo.Y); ok {
					if ph, ok := bo.X.(*ssa.Phi); ok {
						counter, at = ph, n
					}
				}
			}
		}
	}
	if counter == nil {
		b.openf(rel(f), b.p.pos(f.Pos()), "the counter that tells the first lemma was not found")
		return
	}
	step := 0
	for _, r := range *counter.Referrers() {
		if bo, ok := r.(*ssa.BinOp); ok && bo.X == counter {
			if n, ok := intConst(bo.Y); ok && bo.Op == token.SUB {
				step = -n
			} else if ok && bo.Op == token.ADD {
				step = n
			}
		}
	}
	if step == 0 {
		b.openf(rel(f), b.p.pos(f.Pos()), "the counter that tells the first lemma cannot be followed")
		return
	}
	for k := 1; k <= 3; k++ {
		s := &sccp{p: b.p, Fix: func(x ssa.Value) (cval, bool) {
			if x == counter {
				return cInt(at + k*step), true
			}
			return cval{}, false
		}}
		r := s.Run(f, nil)
		for i, st := range stores {
			b.c.Cond(!r.Reach[st.Block()], "read-back", fmt.Sprintf("%s start of the lemmas, store %d, %d lemmas read", rel(f), i+1, k), b.p.pos(st.Pos()), "the start of the lemmas is moved when lemmas have been read already")
		}
	}
}

// absFix evaluates math.Abs.
func absFix(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
	switch x := v.(type) {
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && g.String() == "math.Abs" {
			a := get(x.Call.Args[0])
			if a.v != nil {
				if constant.Sign(a.v) < 0 {
					return cval{v: constant.UnaryOp(token.SUB, a.v, 0)}, true
				}
				return a, true
			}
		}
	case *ssa.Convert:
		a := get(x.X)
		if a.v != nil && (a.v.Kind() == constant.Int || a.v.Kind() == constant.Float) {
			return a, true
		}
	}
	return cval{}, false
}

// literalMaker: a call that makes a formula literal from a name and a phase.
func literalMaker(call *ssa.Call) (name, phase ssa.Value) {
	cm := call.Common()
	n := ""
	if cm.IsInvoke() {
		n = cm.Method.Name()
	} else if g := cm.StaticCallee(); g != nil && shortPkg(pkgOf(g)) == "formula" {
		n = g.Name()
	}
	if n != "Literal" && n != "Lit" || len(cm.Args) < 2 {
		return nil, nil
	}
	a := cm.Args[len(cm.Args)-2:]
	if !isString(a[0].Type()) {
		return nil, nil
	}
	return a[0], a[1]
}

// signedLeaf: the element of a slice of proof literals an index is made of by
// taking the absolute value; "" when it is made of a solver literal.
func signedLeaf(v ssa.Value) string {
	leaf, abs := "", false
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Convert:
			walk(x.X)
		case *ssa.BinOp:
			walk(x.X)
			walk(x.Y)
		case *ssa.Phi:
			abs = true
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				leaf = term(x, 0)
				return
			}
			abs = true
			walk(x.X)
		case *ssa.Call:
			if len(x.Call.Args) != 1 {
				leaf = term(v, 0)
				return
			}
			abs = true
			walk(x.Call.Args[0])
		case *ssa.Extract, *ssa.Parameter:
			leaf = term(v, 0)
		}
	}
	walk(v)
	if !abs || strings.Contains(leaf, ".trail[") {
		return ""
	}
	// the variable of a solver literal is no absolute value
	if call, ok := v.(*ssa.Call); ok {
		if g := call.Call.StaticCallee(); g != nil && g.Name() == "Vari" {
			return ""
		}
	}
	return leaf
}

// coreProps: in the core a clause stands for the proposition recorded with it.
func (b *books) coreProps() {
	for _, f := range b.p.Funcs {
		if shortPkg(pkgOf(f)) != "sat" || f.Blocks == nil {
			continue
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !isProposition(mu.Value.Type()) {
					continue
				}
				from := map[string]bool{}
				collectInfo(mu.Key, from, map[ssa.Value]bool{}, "clause")
				to := map[string]bool{}
				collectInfo(mu.Value, to, map[ssa.Value]bool{}, "proposition")
				if len(from) == 0 || len(to) == 0 {
					continue
				}
				same := len(from) == 1 && len(to) == 1
				for k := range from {
					same = same && to[k]
				}
				b.c.Cond(same, "read-back", rel(f)+" proposition", b.p.pos(mu.Pos()), "a clause is entered with the proposition of another one")
			}
		}
	}
}

// collectInfo: the records whose field v is made of.
func collectInfo(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool, field string) {
	if seen[v] || len(seen) > 200 {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if fieldName(fa.X.Type(), fa.Field) == field && strings.HasSuffix(fieldKey(fa.X.Type(), fa.Field), "proofInformation."+field) {
				out[recOf(fa.X)] = true
			}
			return
		}
		collectInfo(x.X, out, seen, field)
	case *ssa.Field:
		if strings.HasSuffix(fieldKey(x.X.Type(), x.Field), "proofInformation."+field) {
			out[recOf(x.X)] = true
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			collectInfo(e, out, seen, field)
		}
	case *ssa.Call:
		for _, a := range x.Call.Args {
			collectInfo(a, out, seen, field)
		}
	}
}

// recOf: a local copy of an element is that element.
func recOf(v ssa.Value) string {
	if al, ok := v.(*ssa.Alloc); ok {
		t := ""
		for _, r := range *al.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == al {
				t = term(st.Val, 0)
			}
		}
		if t != "" {
			return t
		}
	}
	return term(v, 0)
}

// ---------------------------------------------------------------- watches

type watchAt struct {
	list  string
	conds map[string]bool // condition term -> value
	pos   token.Pos
}

func (w watchAt) compatible(o watchAt) bool {
	for k, v := range w.conds {
		if v2, ok := o.conds[k]; ok && v2 != v {
			return false
		}
	}
	return true
}

// normPhi makes the loop variables of two functions comparable.
func normPhi(t string) string {
	var b strings.Builder
	for i := 0; i < len(t); {
		if strings.HasPrefix(t[i:], "φ") {
			b.WriteString("φ")
			i += len("φ")
			for i < len(t) && (t[i] >= '0' && t[i] <= '9' || t[i] == 't') {
				i++
			}
			continue
		}
		b.WriteByte(t[i])
		i++
	}
	return b.String()
}

func (b *books) conds(bl *ssa.BasicBlock) map[string]bool {
	out := map[string]bool{}
	for _, a := range armsOf(bl) {
		t := normPhi(term(a.cond, 0))
		v := a.val
		for strings.HasPrefix(t, "!") {
			t, v = t[1:], !v
		}
		if bo, ok := a.cond.(*ssa.BinOp); ok && bo.Op == token.NEQ {
			t, v = normPhi("("+term(bo.X, 0)+"=="+term(bo.Y, 0)+")"), !v
		}
		out[t] = v
	}
	return out
}

func (b *books) watch(fns []*ssa.Function) {
	var attach, remove = map[*ssa.Function][]watchAt{}, map[*ssa.Function][]watchAt{}
	partly := map[*ssa.Function]bool{} // enters or removes at places that are not named
	for _, f := range fns {
		ci := -1
		for i, p := range f.Params {
			if isNamed(deref(p.Type()), "sat", "clause") {
				ci = i
			}
		}
		if ci != 1 || f.Signature.Recv() == nil {
			continue
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					ia, ok := x.Addr.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					k, _ := valueFieldKey(ia.X, 0)
					if k != coreT+"watches" && k != coreT+"watchesBin" || !strings.Contains(term(ia, 0), ".watches") {
						if isWatchList(x.Val.Type()) {
							partly[f] = true
						}
						continue
					}
					if call, ok := x.Val.(*ssa.Call); ok {
						if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							attach[f] = append(attach[f], watchAt{normPhi(term(ia, 0)), b.conds(bl), x.Pos()})
							same := term(call.Call.Args[0], 0) == term(ia, 0)
							b.c.Cond(same, "watch", rel(f)+" list "+normPhi(term(ia, 0)), b.p.pos(x.Pos()), "a watch list is replaced by another one that was appended to")
							b.entered(f, x, call, normPhi(term(ia.Index, 0)))
						}
					}
				case *ssa.Call:
					if isRemoveWatcher(x.Call.StaticCallee()) {
						if u := normPhi(term(x.Call.Args[0], 0)); strings.Contains(u, ".watches") {
							remove[f] = append(remove[f], watchAt{u, b.conds(bl), x.Pos()})
						} else {
							partly[f] = true
						}
					} else if b.touchesLists(x.Call.StaticCallee(), 0) {
						partly[f] = true
					}
				}
			}
		}
	}
	for fa, as := range attach {
		for fr, rs := range remove {
			if partly[fa] || partly[fr] {
				b.openf(rel(fa)+" and "+rel(fr), b.p.pos(fr.Pos()), "a watch list that is not named")
				continue
			}
			for _, r := range rs {
				ok := false
				for _, a := range as {
					if sameList(a.list, r.list) && a.compatible(r) {
						ok = true
					}
				}
				b.c.Cond(ok, "watch", rel(fr)+" "+r.list, b.p.pos(r.pos), "the clause is taken out of a list "+rel(fa)+" does not enter it in")
			}
			// a class of clauses that is taken out at all is taken out everywhere
			for _, a := range as {
				touched, has := false, false
				for _, r := range rs {
					if a.compatible(r) {
						touched = true
						if sameList(r.list, a.list) {
							has = true
						}
					}
				}
				if !touched {
					continue
				}
				// only when the removing function distinguishes the same classes
				b.c.Cond(has || !sameClasses(rs, a), "watch", rel(fr)+" leaves "+a.list, b.p.pos(a.pos), rel(fr)+" does not take the clause out of "+a.list+", where "+rel(fa)+" enters it")
			}
		}
	}
	if len(attach) == 0 || len(remove) == 0 {
		b.openf("watch", "", "the functions that enter clauses into watch lists were not found")
	}
}

func isWatchList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(deref(s.Elem()), "sat", "watcher")
}

// touchesLists: g changes watch lists, or is given one.
func (b *books) touchesLists(g *ssa.Function, d int) bool {
	if g == nil || d > 3 || !inModule(g) {
		return false
	}
	for _, bl := range g.Blocks {
		for _, in := range bl.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if isWatchList(x.Val.Type()) {
					return true
				}
			case *ssa.Call:
				if h := x.Call.StaticCallee(); isRemoveWatcher(h) || h != g && b.touchesLists(h, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// sameList compares two places; a loop variable may be any number.
func sameList(a, b string) bool {
	if a == b {
		return true
	}
	if !strings.Contains(a, "φ") && !strings.Contains(b, "φ") {
		return false
	}
	return anyIndex(a) == anyIndex(b)
}

func anyIndex(t string) string {
	for _, n := range []string{"[0]", "[1]", "[φ]", "[(φ+1)]", "[(1-φ)]"} {
		t = strings.ReplaceAll(t, n, "[*]")
	}
	return t
}

// entered: a clause is watched at the negations of its literals, with another
// one of its literals as blocker; an at-most constraint at its literals.
func (b *books) entered(f *ssa.Function, st *ssa.Store, call *ssa.Call, at string) {
	cl := "$1.data["
	atMost := false
	for t, v := range b.conds(st.Block()) {
		if strings.HasSuffix(t, ".isAtMost") && v {
			atMost = true
		}
	}
	key := rel(f) + " entered at " + at
	pos := b.p.pos(st.Pos())
	neg := strings.HasPrefix(at, "(") && strings.HasSuffix(at, "^1)")
	lit := at
	if neg {
		lit = at[1 : len(at)-len("^1)")]
	}
	if !strings.HasPrefix(lit, cl) || !strings.HasSuffix(lit, "]") {
		b.openf(key, pos, "the place in the watch lists cannot be followed")
		return
	}
	b.c.Cond(neg != atMost, "watch", key, pos, "the clause is not entered in the list that is looked at when its literal becomes false")
	els := varargs(call.Call.Args[1])
	if len(els) != 1 || atMost {
		return
	}
	w, ok := els[0].(*ssa.Call)
	if !ok || len(w.Call.Args) != 2 || term(w.Call.Args[0], 0) != "$1" {
		b.openf(key, pos, "the watcher cannot be followed")
		return
	}
	bt := normPhi(term(w.Call.Args[1], 0))
	b.c.Cond(strings.HasPrefix(bt, cl) && strings.HasSuffix(bt, "]") && bt != lit, "watch", key+" blocker", pos, "the watcher does not name another literal of the clause")
}

// sameClasses: some removal lies under all the conditions of a, or a is
// compatible with every removal of an unconditional function for its list.
func sameClasses(rs []watchAt, a watchAt) bool {
	for _, r := range rs {
		if !a.compatible(r) {
			continue
		}
		all := true
		for k := range r.conds {
			if _, ok := a.conds[k]; !ok {
				all = false
			}
		}
		if all && len(r.conds) > 1 {
			return true
		}
	}
	return false
}
