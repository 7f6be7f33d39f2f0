package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Walker is a path-sensitive abstract interpreter over access paths.  A value
// is a term: a constant, an access path below a parameter, or an opaque name
// of the instruction that produced it.  Memory maps address terms to terms;
// branches on terms are remembered (nil-ness, truth, equality with
// constants), so that correlated branches stay correlated.  Loops are
// explored until no new abstract state appears.
type Walker struct {
	P        *Program
	Mods     *Mods
	MaxDepth int
	MaxSteps int
	// Inline decides whether a resolved call is entered.
	Inline func(g *ssa.Function, depth int) bool
	// OnCall sees every call that is not inlined (before its effect on
	// memory is forgotten) and may return result terms (nil: opaque).
	OnCall func(w *Walker, fr *Frame, st *PState, c ssa.CallInstruction, g *ssa.Function, args []string) []string
	// OnEnter sees every call that is inlined.
	OnEnter func(w *Walker, fr *Frame, st *PState, c ssa.CallInstruction, g *ssa.Function, args []string)
	// OnInstr sees every instruction before it is executed.
	OnInstr func(w *Walker, fr *Frame, st *PState, in ssa.Instruction)
	// OnBranch sees every branch outcome and may veto it.
	OnBranch func(w *Walker, fr *Frame, st *PState, x *ssa.If, cond string, taken bool) bool

	Steps    int
	Overrun  bool
	seen     map[string]bool
	addrKey  map[string]string
	closures map[string]closureTerm
	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	variants map[string]int
	// Values, if set, names a struct type that is only handled by value: no
	// callee writes a field of the caller's values.
	Values string
	// Widen is the number of states per program point and typestate after
	// which branch facts are no longer kept apart.
	Widen   int
	Widened int
}

type closureTerm struct {
	fn   *ssa.Function
	bind []string
}

var debugWalk = os.Getenv("VERIF_DEBUG") != ""

// Frame is one activation.
type Frame struct {
	Fn     *ssa.Function
	ID     string
	Depth  int
	Parent *Frame
	Call   ssa.CallInstruction
	ctx    string // signature of the callers' registers
	env    map[ssa.Value]string
	defers []ssa.CallInstruction
}

// PState is the abstract state of a path.
type PState struct {
	mem   map[string]string
	facts map[string]string
	TS    map[string]string // typestate of the check
}

func newPState() *PState {
	return &PState{map[string]string{}, map[string]string{}, map[string]string{}}
}

func cloneM(m map[string]string) map[string]string {
	n := make(map[string]string, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *PState) clone() *PState { return &PState{cloneM(s.mem), cloneM(s.facts), cloneM(s.TS)} }

func sigM(m map[string]string) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(k + "=" + m[k] + ";")
	}
	return sb.String()
}

func (s *PState) sig() string { return sigM(s.mem) + "|" + sigM(s.facts) + "|" + sigM(s.TS) }

func NewWalker(p *Program) *Walker {
	return &Walker{P: p, Mods: p.mods(), MaxDepth: 5, MaxSteps: 200000, seen: map[string]bool{}, addrKey: map[string]string{}, closures: map[string]closureTerm{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, variants: map[string]int{}, Widen: 24}
}

// Run explores fn with its parameters named by their SSA names.
func (w *Walker) Run(fn *ssa.Function, st *PState, ret func(*Frame, *PState, *ssa.Return, []string)) {
	fr := &Frame{Fn: fn, ID: "", env: map[ssa.Value]string{}}
	for _, p := range fn.Params {
		fr.env[p] = p.Name()
	}
	for _, p := range fn.FreeVars {
		fr.env[p] = "free:" + p.Name()
	}
	w.block(fr, fn.Blocks[0], nil, 0, st, ret)
}

func (w *Walker) opaque(fr *Frame, v ssa.Value) string {
	return "v:" + fr.ID + "/" + v.Name() + "@" + strconv.Itoa(int(v.Pos()))
}

// Term evaluates a value.
func (w *Walker) Term(fr *Frame, v ssa.Value) string {
	if t, ok := fr.env[v]; ok {
		return t
	}
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			if _, ok := c.Type().Underlying().(*types.Struct); ok {
				return "zero"
			}
			return "nil"
		}
		if c.Value.Kind() == constant.Bool {
			return strconv.FormatBool(constant.BoolVal(c.Value))
		}
		return "#" + c.Value.ExactString()
	case *ssa.Global:
		return "glob:" + c.String()
	case *ssa.Function:
		return "func:" + c.String()
	case *ssa.Builtin:
		return "builtin:" + c.Name()
	}
	return w.opaque(fr, v)
}

func isStructT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// load reads the cell at address a.
func (w *Walker) load(st *PState, a string, t types.Type, self string) string {
	if isStructT(t) {
		// snapshot the known fields
		w.copyStruct(st, a, self, true)
		if v, ok := st.mem[a]; ok && v == "zero" {
			below := false
			for k := range st.mem {
				if strings.HasPrefix(k, a+".") {
					below = true
				}
			}
			if !below {
				return "zero"
			}
		}
		return self
	}
	if v, ok := st.mem[a]; ok {
		return v
	}
	if i := strings.LastIndex(a, "."); i > 0 {
		if v, ok := st.mem[a[:i]]; ok {
			if v == "zero" {
				return zeroOf(t)
			}
			return v + "." + a[i+1:] + "!"
		}
	}
	if strings.HasPrefix(a, "&") && !strings.Contains(a, "!") && !strings.Contains(a, "[") {
		if _, escaped := st.mem["esc:"+allocBase(a)]; !escaped {
			return zeroOf(t)
		}
	}
	return a + "!"
}

func allocBase(a string) string {
	if i := strings.IndexAny(a, ".["); i > 0 && strings.HasPrefix(a, "&") {
		// the alloc name itself holds no dots after the marker
		if j := strings.Index(a, "}"); j > 0 {
			return a[:j+1]
		}
	}
	return a
}

func zeroOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "false"
		case u.Info()&types.IsNumeric != 0:
			return "#0"
		case u.Info()&types.IsString != 0:
			return "#\"\""
		}
		return "nil"
	case *types.Struct:
		return "zero"
	}
	return "nil"
}

// copyStruct copies the cells below src to dst.
func (w *Walker) copyStruct(st *PState, src, dst string, fresh bool) {
	if fresh {
		w.dropBelow(st, dst)
	}
	add := map[string]string{}
	for k, v := range st.mem {
		if strings.HasPrefix(k, src+".") {
			add[dst+k[len(src):]] = v
			if fk := w.addrKey[k]; fk != "" {
				w.addrKey[dst+k[len(src):]] = fk
			}
		}
	}
	for k, v := range add {
		st.mem[k] = v
	}
	if v, ok := st.mem[src]; ok {
		st.mem[dst] = v
	} else if strings.HasPrefix(src, "&") && !strings.Contains(src, "!") && st.mem["esc:"+allocBase(src)] == "" {
		st.mem[dst] = "zero"
	} else if src != "zero" {
		st.mem[dst] = src
	}
}

func (w *Walker) dropBelow(st *PState, a string) {
	for k := range st.mem {
		if k == a || strings.HasPrefix(k, a+".") || strings.HasPrefix(k, a+"[") {
			delete(st.mem, k)
		}
	}
}

func (w *Walker) dropFacts(st *PState, t string) {
	for k := range st.facts {
		if strings.Contains(k, t) {
			delete(st.facts, k)
		}
	}
}

// forget makes every tracked cell of the given fields unknown.
func (w *Walker) forget(st *PState, mods map[string]bool, tag string) {
	cells := map[string]bool{}
	for a := range st.mem {
		cells[a] = true
	}
	for f := range st.facts {
		for a := range w.addrKey {
			if strings.Contains(f, a+"!") {
				cells[a] = true
			}
		}
	}
	for a := range cells {
		k := w.addrKey[a]
		if w.Values != "" && strings.Contains(k, w.Values) {
			continue
		}
		if k != "" && mods[k] && !strings.HasPrefix(a, "v:") {
			nv := a + "!" + tag
			st.mem[a] = nv
			w.dropFacts(st, nv)
		}
	}
}

func (w *Walker) setFact(st *PState, t string, v string) {
	if t == "" || strings.HasPrefix(t, "#") || t == "nil" || t == "true" || t == "false" {
		return
	}
	st.facts[t] = v
}

// Truth of a boolean term: "true", "false" or "".
func (w *Walker) Truth(st *PState, t string) string {
	neg := false
	for strings.HasPrefix(t, "¬") {
		t = strings.TrimPrefix(t, "¬")
		neg = !neg
	}
	r := ""
	switch t {
	case "true", "false":
		r = t
	default:
		r = st.facts[t]
	}
	if r == "" || !neg {
		return r
	}
	if r == "true" {
		return "false"
	}
	return "true"
}

func (w *Walker) isNil(st *PState, t string) string {
	switch {
	case t == "nil":
		return "true"
	case strings.HasPrefix(t, "&"), strings.HasPrefix(t, "tok:"), strings.HasPrefix(t, "err:"), strings.HasPrefix(t, "glob:"), strings.HasPrefix(t, "func:"), strings.HasPrefix(t, "clos:"), strings.HasPrefix(t, "mk:"):
		return "false"
	}
	return st.facts["nil?"+t]
}

func tracked(t string) bool {
	return t != "" && !strings.HasPrefix(t, "v:")
}

func (w *Walker) binop(fr *Frame, st *PState, x *ssa.BinOp) string {
	l, r := w.Term(fr, x.X), w.Term(fr, x.Y)
	if x.Op != token.EQL && x.Op != token.NEQ {
		return ""
	}
	res := ""
	key := ""
	switch {
	case l == "nil" || r == "nil":
		o := l
		if l == "nil" {
			o = r
		}
		res = w.isNil(st, o)
		if o == "nil" {
			res = "true"
		}
		key = "nil?" + o
	case isConstT(l) && isConstT(r):
		res = strconv.FormatBool(l == r)
	case l == r && tracked(l):
		res = "true"
	case isBool(x.X.Type()):
		if r == "true" || r == "false" {
			l, r = r, l
		}
		if l == "true" || l == "false" {
			if (l == "true") == (x.Op == token.EQL) {
				return r
			}
			return neg(r)
		}
	default:
		if l > r {
			l, r = r, l
		}
		key = "eq(" + l + "," + r + ")"
		res = st.facts[key]
		if res == "" {
			// known equal to another constant?
			c, o := l, r
			if isConstT(r) {
				c, o = r, l
			}
			if isConstT(c) {
				if k := st.facts["is:"+o]; k != "" && k != c {
					res = "false"
				}
			}
		}
	}
	if res != "" {
		if x.Op == token.NEQ {
			return neg(res)
		}
		return res
	}
	if key == "" {
		return ""
	}
	if x.Op == token.NEQ {
		return neg(key)
	}
	return key
}

func isConstT(t string) bool {
	return strings.HasPrefix(t, "#") || t == "true" || t == "false" || t == "nil" || strings.HasPrefix(t, "glob:")
}

func neg(t string) string {
	switch t {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(t, "¬") {
		return strings.TrimPrefix(t, "¬")
	}
	return "¬" + t
}

// Assume records the outcome of a branch.
func (w *Walker) Assume(st *PState, t string, b bool) {
	for strings.HasPrefix(t, "¬") {
		t = strings.TrimPrefix(t, "¬")
		b = !b
	}
	if t == "" {
		return
	}
	w.setFact(st, t, strconv.FormatBool(b))
	if strings.HasPrefix(t, "eq(") && b {
		in := strings.TrimSuffix(strings.TrimPrefix(t, "eq("), ")")
		if i := strings.LastIndex(in, ","); i > 0 {
			l, r := in[:i], in[i+1:]
			if isConstT(l) {
				st.facts["is:"+r] = l
			} else if isConstT(r) {
				st.facts["is:"+l] = r
			}
		}
	}
}

func (w *Walker) block(fr *Frame, b, pred *ssa.BasicBlock, from int, st *PState, ret func(*Frame, *PState, *ssa.Return, []string)) {
	for {
		w.Steps++
		if w.Steps > w.MaxSteps {
			w.Overrun = true
			return
		}
		if from == 0 {
			if pred != nil {
				vals := map[*ssa.Phi]string{}
				for _, in := range b.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, q := range b.Preds {
						if q == pred {
							vals[ph] = w.Term(fr, ph.Edges[k])
						}
					}
				}
				for ph, t := range vals {
					if strings.HasPrefix(t, "v:") && !isPtr(ph.Type()) {
						// merge opaque values under the phi's own name
						t = w.opaque(fr, ph)
						w.dropFacts(st, t)
					}
					fr.env[ph] = t
				}
			}
			w.collect(fr, b, st)
			point := fr.ID + "|" + strconv.Itoa(b.Index) + "|" + sigM(st.TS)
			key := fr.ctx + "|" + w.envSig(fr, b) + "|" + point + "|" + sigM(st.mem) + "|" + sigM(st.facts)
			if w.seen[key] {
				return
			}
			w.seen[key] = true
			w.variants[point]++
			if w.variants[point] > w.Widen {
				w.Widened++
				st.facts = map[string]string{}
				key = fr.ctx + "|" + w.envSig(fr, b) + "|" + point + "|" + sigM(st.mem) + "|"
				if w.seen[key] {
					return
				}
				w.seen[key] = true
			}
		}
		for i := from; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if w.OnInstr != nil {
				w.OnInstr(w, fr, st, in)
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Jump:
				pred, b, from = b, b.Succs[0], 0
				goto next
			case *ssa.Panic:
				return
			case *ssa.Return:
				var vs []string
				for _, r := range x.Results {
					vs = append(vs, w.Term(fr, r))
				}
				ret(fr, st, x, vs)
				return
			case *ssa.If:
				c := w.Term(fr, x.Cond)
				t := w.Truth(st, c)
				if t != "" {
					k := 1
					if t == "true" {
						k = 0
					}
					if w.OnBranch != nil && !w.OnBranch(w, fr, st, x, c, k == 0) {
						return
					}
					pred, b, from = b, b.Succs[k], 0
					goto next
				}
				st2 := st.clone()
				fr2 := fr.clone()
				if tracked(strings.TrimLeft(c, "¬")) {
					w.Assume(st2, c, true)
				}
				if w.OnBranch == nil || w.OnBranch(w, fr2, st2, x, c, true) {
					w.block(fr2, b.Succs[0], b, 0, st2, ret)
				}
				if tracked(strings.TrimLeft(c, "¬")) {
					w.Assume(st, c, false)
				}
				if w.OnBranch != nil && !w.OnBranch(w, fr, st, x, c, false) {
					return
				}
				pred, b, from = b, b.Succs[1], 0
				goto next
			case *ssa.Defer:
				fr.defers = append(append([]ssa.CallInstruction{}, fr.defers...), x)
			case *ssa.RunDefers:
				ds := fr.defers
				fr.defers = nil
				var rec func(st *PState, i int)
				blk, idx := b, i+1
				rec = func(st *PState, i int) {
					if i < 0 {
						w.block(fr.clone(), blk, nil, idx, st, ret)
						return
					}
					w.call(fr, st, ds[i], func(st *PState, _ []string) { rec(st, i-1) })
				}
				rec(st, len(ds)-1)
				return
			case *ssa.Call:
				blk, idx := b, i+1
				entered := w.call(fr, st, x, func(st2 *PState, vs []string) {
					f2 := fr.clone()
					w.bindCall(f2, st2, x, vs)
					w.block(f2, blk, nil, idx, st2, ret)
				})
				if entered {
					return
				}
			default:
				w.step(fr, st, in)
			}
		}
		return
	next:
	}
}

// collect drops registers that are not used any more, and the cells and
// facts only they could reach.
func (w *Walker) collect(fr *Frame, b *ssa.BasicBlock, st *PState) {
	lv := w.live[fr.Fn]
	if lv == nil {
		lv = liveIn(fr.Fn)
		w.live[fr.Fn] = lv
	}
	for v := range fr.env {
		if !lv[b][v] {
			delete(fr.env, v)
		}
	}
	live := map[string]bool{}
	var q []string
	mark := func(t string) {
		for _, n := range localNames(t) {
			if !live[n] {
				live[n] = true
				q = append(q, n)
			}
		}
	}
	for f := fr; f != nil; f = f.Parent {
		for _, t := range f.env {
			mark(t)
		}
		for _, d := range f.defers {
			_ = d
		}
	}
	for k, v := range st.TS {
		mark(k)
		mark(v)
	}
	byBase := map[string][]string{}
	for k := range st.mem {
		if ns := localNames(k); len(ns) > 0 {
			byBase[ns[0]] = append(byBase[ns[0]], k)
		} else {
			mark(st.mem[k])
		}
	}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		for _, k := range byBase[n] {
			mark(st.mem[k])
			mark(k)
		}
	}
	for k := range st.mem {
		for _, n := range localNames(k) {
			if !live[n] {
				delete(st.mem, k)
				break
			}
		}
	}
	for k := range st.facts {
		for _, n := range localNames(k) {
			if !live[n] {
				delete(st.facts, k)
				break
			}
		}
	}
}

// localNames are the names of allocations and opaque results in a term.
func localNames(t string) []string {
	var out []string
	for i := 0; i < len(t); i++ {
		if strings.HasPrefix(t[i:], "&{") {
			j := strings.IndexByte(t[i:], '}')
			if j < 0 {
				return out
			}
			out = append(out, t[i:i+j+1])
			i += j
		} else if strings.HasPrefix(t[i:], "v:") && (i == 0 || !isIdent(t[i-1])) {
			j := i + 2
			for j < len(t) && (isIdent(t[j]) || t[j] == '/' || t[j] == '@') {
				j++
			}
			out = append(out, t[i:j])
			i = j - 1
		}
	}
	return out
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]string, len(fr.env))
	for k, v := range fr.env {
		n.env[k] = v
	}
	return &n
}

// envSig: the registers that hold something other than their own name.
func (w *Walker) envSig(fr *Frame, b *ssa.BasicBlock) string {
	var s []string
	for v, t := range fr.env {
		if strings.HasPrefix(t, "v:") && t == w.opaque(fr, v) {
			continue
		}
		if _, ok := v.(*ssa.Parameter); ok && fr.Parent == nil {
			continue
		}
		s = append(s, v.Name()+"="+t)
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

func (w *Walker) bindCall(fr *Frame, st *PState, x *ssa.Call, vs []string) {
	if len(vs) == 1 {
		if _, tuple := x.Type().(*types.Tuple); !tuple {
			fr.env[x] = vs[0]
			return
		}
	}
	for _, e := range extracts(x) {
		if e.Index < len(vs) {
			fr.env[e] = vs[e.Index]
		} else {
			t := w.opaque(fr, e)
			fr.env[e] = t
			w.dropFacts(st, t)
		}
	}
}

// call executes a call.  It reports whether the continuation took over.
func (w *Walker) call(fr *Frame, st *PState, ci ssa.CallInstruction, k func(*PState, []string)) bool {
	c := ci.Common()
	var args []string
	if c.IsInvoke() {
		args = append(args, w.Term(fr, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, w.Term(fr, a))
	}
	g := staticCallee(c)
	var bind []string
	if g == nil && !c.IsInvoke() {
		if ct, ok := w.closures[w.Term(fr, c.Value)]; ok {
			g, bind = ct.fn, ct.bind
		}
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		if ct, ok := w.closures[w.Term(fr, mc)]; ok {
			g, bind = ct.fn, ct.bind
		}
	}
	if g != nil && g.Blocks != nil && w.Inline != nil && fr.Depth < w.MaxDepth && !fr.active(g) && w.Inline(g, fr.Depth) {
		if w.OnEnter != nil {
			w.OnEnter(w, fr, st, ci, g, args)
		}
		id := fr.ID + "/" + g.Name() + strconv.Itoa(int(ci.Pos()))
		sub := &Frame{Fn: g, ID: id, Depth: fr.Depth + 1, Parent: fr, Call: ci, env: map[ssa.Value]string{}}
		sub.ctx = fr.ctx + "(" + w.envSig(fr, nil) + ")"
		for i, p := range g.Params {
			if i < len(args) {
				sub.env[p] = args[i]
			}
		}
		for i, p := range g.FreeVars {
			if i < len(bind) {
				sub.env[p] = bind[i]
			}
		}
		w.block(sub, g.Blocks[0], nil, 0, st, func(_ *Frame, s2 *PState, _ *ssa.Return, vs []string) {
			k(s2.clone(), vs)
		})
		return true
	}
	var res []string
	if w.OnCall != nil {
		res = w.OnCall(w, fr, st, ci, g, args)
	}
	tag := "@" + fr.ID + strconv.Itoa(int(ci.Pos()))
	for _, t := range w.P.Targets(c) {
		w.forget(st, w.Mods.Of(t), tag)
	}
	if g == nil && !c.IsInvoke() {
		if _, bi := c.Value.(*ssa.Builtin); !bi {
			// a call through a function value: forget what the functions of
			// that signature may write
			if ct, ok := w.closures[w.Term(fr, c.Value)]; ok {
				w.forget(st, w.Mods.Of(ct.fn), tag)
			}
		}
	}
	for i, a := range c.Args {
		_ = i
		if t := w.Term(fr, a); strings.HasPrefix(t, "&") && isPtr(a.Type()) {
			st.mem["esc:"+allocBase(t)] = "1"
			if debugWalk {
				fmt.Println("escape", t, calleeName(c), w.P.pos(ci.Pos()))
			}
			if structOf(deref(a.Type())) == nil {
				st.mem[t] = t + "!" + tag
			}
		}
	}
	x, ok := ci.(*ssa.Call)
	if !ok {
		k(st, nil)
		return true
	}
	if res != nil {
		w.bindCall(fr, st, x, res)
	} else {
		t := w.opaque(fr, x)
		fr.env[x] = t
		w.dropFacts(st, t)
		w.dropBelow(st, t)
		for _, e := range extracts(x) {
			t := w.opaque(fr, e)
			fr.env[e] = t
			w.dropFacts(st, t)
			w.dropBelow(st, t)
		}
	}
	return false
}

func (fr *Frame) active(g *ssa.Function) bool {
	for f := fr; f != nil; f = f.Parent {
		if f.Fn == g {
			return true
		}
	}
	return false
}

func (w *Walker) step(fr *Frame, st *PState, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := "&{" + fr.ID + x.Name() + "}"
		w.dropBelow(st, t)
		delete(st.mem, "esc:"+t)
		fr.env[x] = t
	case *ssa.FieldAddr:
		t := w.Term(fr, x.X) + "." + fieldName(deref(x.X.Type()), x.Field)
		w.addrKey[t] = fieldKey(x.X.Type(), x.Field)
		fr.env[x] = t
	case *ssa.IndexAddr:
		i := w.Term(fr, x.Index)
		if !strings.HasPrefix(i, "#") {
			i = "*"
		}
		fr.env[x] = w.Term(fr, x.X) + "[" + i + "]"
	case *ssa.Field:
		t := w.Term(fr, x.X)
		a := t + "." + fieldName(x.X.Type(), x.Field)
		if t == "zero" {
			fr.env[x] = zeroOf(x.Type())
		} else {
			w.addrKey[a] = fieldKey(x.X.Type(), x.Field)
			fr.env[x] = w.load(st, a, x.Type(), w.opaque(fr, x))
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			fr.env[x] = neg(w.Term(fr, x.X))
		case token.MUL:
			a := w.Term(fr, x.X)
			if strings.Contains(a, "[*]") && strings.HasSuffix(a, "[*]") {
				t := w.opaque(fr, x)
				w.dropFacts(st, t)
				w.dropBelow(st, t)
				fr.env[x] = t
				return
			}
			fr.env[x] = w.load(st, a, x.Type(), w.opaque(fr, x))
		default:
			w.fresh(fr, st, x)
		}
	case *ssa.Store:
		a, v := w.Term(fr, x.Addr), w.Term(fr, x.Val)
		if strings.HasSuffix(a, "[*]") {
			return
		}
		if isStructT(x.Val.Type()) {
			w.dropBelow(st, a)
			if v == "zero" {
				st.mem[a] = "zero"
			} else {
				w.copyStruct(st, v, a, false)
			}
			return
		}
		// another name for the same field may alias: forget it
		if k := w.addrKey[a]; k != "" {
			for c := range st.mem {
				if c != a && w.addrKey[c] == k && mayAlias(c, a) {
					st.mem[c] = c + "!?" + strconv.Itoa(int(x.Pos()))
				}
			}
		}
		st.mem[a] = v
	case *ssa.BinOp:
		if t := w.binop(fr, st, x); t != "" {
			fr.env[x] = t
		} else {
			w.fresh(fr, st, x)
		}
	case *ssa.MakeInterface:
		fr.env[x] = w.Term(fr, x.X)
	case *ssa.ChangeInterface:
		fr.env[x] = w.Term(fr, x.X)
	case *ssa.ChangeType:
		fr.env[x] = w.Term(fr, x.X)
	case *ssa.Convert:
		fr.env[x] = w.Term(fr, x.X)
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		v := in.(ssa.Value)
		fr.env[v] = "mk:" + fr.ID + v.Name()
	case *ssa.MakeClosure:
		t := "clos:" + fr.ID + x.Name()
		var bs []string
		for _, b := range x.Bindings {
			bs = append(bs, w.Term(fr, b))
		}
		if f, ok := x.Fn.(*ssa.Function); ok {
			w.closures[t] = closureTerm{f, bs}
		}
		fr.env[x] = t
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Call); !ok {
			w.fresh(fr, st, x)
		} else if _, ok := fr.env[x]; !ok {
			w.fresh(fr, st, x)
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			fr.env[x] = w.Term(fr, x.X)
		} else {
			w.fresh(fr, st, x)
		}
	case ssa.Value:
		w.fresh(fr, st, x)
	}
}

func mayAlias(a, b string) bool {
	if strings.HasPrefix(a, "v:") && !strings.Contains(a, "!") {
		// a snapshot of a struct value is not an address
		return false
	}
	ba, bb := allocBase(a), allocBase(b)
	if strings.HasPrefix(a, "&{") && strings.HasPrefix(b, "&{") {
		return ba == bb
	}
	if strings.HasPrefix(a, "&{") != strings.HasPrefix(b, "&{") {
		return false
	}
	return true
}

func (w *Walker) fresh(fr *Frame, st *PState, v ssa.Value) {
	t := w.opaque(fr, v)
	w.dropFacts(st, t)
	w.dropBelow(st, t)
	fr.env[v] = t
}

func (w *Walker) debugState(st *PState) string {
	return fmt.Sprintf("TS %s\n  mem %s\n  facts %s", sigM(st.TS), sigM(st.mem), sigM(st.facts))
}
