package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values of the cancellation interpreter.
type akind int

const (
	aUnknown akind = iota
	aTrue
	aFalse
	aSucc // handler.State{Success: true} (or a carrier of it)
	aCanc // handler.State{Success: false, CancelCause: cause} (or a carrier)
	aNil
	aNonNil
	aConst // a constant, spelled in cause
)

type aval struct {
	k     akind
	cause string
}

func (a aval) String() string { return fmt.Sprint(int(a.k), a.cause) }

var unk = aval{}

func abool(b bool) aval {
	if b {
		return aval{k: aTrue}
	}
	return aval{k: aFalse}
}

type cellKey struct {
	base  ssa.Value
	field int // -1 whole
}

type env struct {
	val map[ssa.Value]aval
	mem map[cellKey]aval
}

func newEnv() *env { return &env{map[ssa.Value]aval{}, map[cellKey]aval{}} }

func (e *env) clone() *env {
	n := newEnv()
	for k, v := range e.val {
		n.val[k] = v
	}
	for k, v := range e.mem {
		n.mem[k] = v
	}
	return n
}

func (e *env) sig() string {
	var s []string
	for k, v := range e.val {
		if v.k != aUnknown {
			s = append(s, fmt.Sprintf("%p=%s", k, v))
		}
	}
	for k, v := range e.mem {
		if v.k != aUnknown {
			s = append(s, fmt.Sprintf("%p.%d=%s", k.base, k.field, v))
		}
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

func isState(t types.Type) bool { return isNamed(t, "handler", "State") && !isPtr(t) }

func isPtr(t types.Type) bool { _, ok := types.Unalias(t).(*types.Pointer); return ok }

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// isCarrier reports whether t is (a pointer to) a named struct of the module
// that has a direct field of type handler.State.
func isCarrier(t types.Type) bool {
	if isState(t) {
		return false
	}
	u := types.Unalias(t)
	if p, ok := u.(*types.Pointer); ok {
		u = types.Unalias(p.Elem())
	}
	if _, ok := u.(*types.Named); !ok {
		return false
	}
	return stateField(t) >= 0
}

func stateField(t types.Type) int {
	s := structOf(t)
	if s == nil {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if isState(s.Field(i).Type()) {
			return i
		}
	}
	return -1
}

// canonVal is a canonical text for an event value so that the polled event
// and the reported cause can be compared.
func canonVal(v ssa.Value) string { return canonVal1(v, 0) }

func canonVal1(v ssa.Value, d int) string {
	if d > 6 {
		return fmt.Sprintf("%p", v)
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return canonVal1(x.X, d+1)
	case *ssa.ChangeInterface:
		return canonVal1(x.X, d+1)
	case *ssa.ChangeType:
		return canonVal1(x.X, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok {
				return "global " + g.String()
			}
			if a, ok := x.X.(*ssa.Alloc); ok {
				if s := soleStore(a); s != nil {
					return canonVal1(s, d+1)
				}
				if s := fieldStores(a, d); s != "" {
					return s
				}
			}
			return fmt.Sprintf("load %s", canonVal1(x.X, d+1))
		}
	case *ssa.Const:
		return "const " + x.String()
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return canonVal1(b, d+1)
		}
	}
	return fmt.Sprintf("%p", v)
}

// fieldStores canonicalises a composite literal held in an alloc by the
// values stored to its fields.
func fieldStores(a *ssa.Alloc, d int) string {
	var parts []string
	for _, r := range *a.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok {
			for _, r2 := range *fa.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
					parts = append(parts, fmt.Sprintf("%d:%s", fa.Field, canonVal1(st.Val, d+1)))
				}
			}
		}
	}
	if len(parts) == 0 {
		return ""
	}
	sort.Strings(parts)
	return a.Type().String() + "{" + strings.Join(parts, ",") + "}"
}

func soleStore(a *ssa.Alloc) ssa.Value {
	var v ssa.Value
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == a {
			if v != nil {
				return nil
			}
			v = st.Val
		}
	}
	return v
}

// bindingOf resolves a captured variable to the unique binding.
func bindingOf(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	idx := -1
	for i, x := range fn.FreeVars {
		if x == fv {
			idx = i
		}
	}
	par := fn.Parent()
	if par == nil || idx < 0 {
		return nil
	}
	var res ssa.Value
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				if res != nil && res != mc.Bindings[idx] {
					return nil
				}
				res = mc.Bindings[idx]
			}
		}
	}
	return res
}

type retInfo struct {
	at   *ssa.Return
	vals []aval
}

// sim is one run of the interpreter over a function from a given point.
type sim struct {
	a       *canc
	fn      *ssa.Function
	steps   int
	rets    []retInfo
	retSeen map[string]bool
	seen    map[string]bool
	// onCall is told every call executed on an explored path.
	onInstr func(in ssa.Instruction, e *env)
	overrun bool
	stopAt  ssa.Instruction
	depth   int
	trace   map[*ssa.BasicBlock]bool
}

type canc struct {
	p     *Program
	succG map[*ssa.Global]bool
	comp  map[*ssa.Function][]aval
}

func newCanc(p *Program) *canc {
	a := &canc{p: p, succG: map[*ssa.Global]bool{}, comp: map[*ssa.Function][]aval{}}
	bad := map[*ssa.Global]bool{}
	scan := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && isState(deref(g.Type())) {
						if c, ok := st.Val.(*ssa.Call); ok && isFunc(staticCallee(&c.Call), "handler", "Success") {
							a.succG[g] = true
						} else {
							bad[g] = true
						}
					}
				}
			}
		}
	}
	for _, pk := range p.Pkgs {
		if sp := p.SSA.Package(pk.Types); sp != nil {
			if f := sp.Func("init"); f != nil {
				scan(f)
			}
		}
	}
	for _, f := range p.Funcs {
		scan(f)
	}
	for g := range bad {
		delete(a.succG, g)
	}
	return a
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (s *sim) get(e *env, v ssa.Value) aval {
	if x, ok := e.val[v]; ok {
		return x
	}
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			if isState(c.Type()) {
				// zero State: Success == false, no cause
				return aval{aCanc, "zero"}
			}
			if isCarrier(c.Type()) && !isPtr(c.Type()) {
				return aval{aCanc, "zero"}
			}
			return aval{k: aNil}
		}
		if c.Value.Kind() == constant.Bool {
			return abool(constant.BoolVal(c.Value))
		}
		return aval{aConst, c.Value.ExactString()}
	case *ssa.MakeInterface, *ssa.Alloc:
		return aval{k: aNonNil}
	}
	return unk
}

// base normalises an address to (base, field).
func cellOf(addr ssa.Value) (cellKey, bool) {
	switch x := addr.(type) {
	case *ssa.Alloc:
		return cellKey{x, -1}, true
	case *ssa.FieldAddr:
		return cellKey{x.X, x.Field}, true
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			if _, ok := b.(*ssa.Alloc); ok {
				return cellKey{b, -1}, true
			}
			return cellOf(b)
		}
		return cellKey{x, -1}, true
	case *ssa.Parameter:
		return cellKey{x, -1}, true
	case *ssa.Global:
		return cellKey{x, -1}, true
	case *ssa.Phi, *ssa.Call, *ssa.Extract:
		return cellKey{addr, -1}, true
	}
	return cellKey{}, false
}

func (s *sim) load(e *env, addr ssa.Value, t types.Type) aval {
	if g, ok := addr.(*ssa.Global); ok {
		if s.a.succG[g] {
			return aval{k: aSucc}
		}
	}
	k, ok := cellOf(addr)
	if !ok {
		return unk
	}
	if v, ok := e.mem[k]; ok {
		return v
	}
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		// field of a State held in a cell, or of a carrier value
		bt := deref(fa.X.Type())
		if isState(bt) {
			st := s.load(e, fa.X, bt)
			if fa.Field == 0 {
				return succOf(st)
			}
			return unk
		}
		if fa.Field == stateField(bt) {
			// carrier pointer value known?
			if cv := s.get(e, fa.X); cv.k == aSucc || cv.k == aCanc {
				return cv
			}
			if w, ok := e.mem[cellKey{fa.X, -1}]; ok {
				return w
			}
		}
		return unk
	}
	// whole load of a struct assembled by fields
	if isState(t) {
		if b, ok := e.mem[cellKey{k.base, 0}]; ok && k.field == -1 {
			if b.k == aTrue {
				return aval{k: aSucc}
			}
			if b.k == aFalse {
				return aval{aCanc, "literal"}
			}
		}
	}
	if isCarrier(t) && k.field == -1 {
		if b, ok := e.mem[cellKey{k.base, stateField(t)}]; ok {
			return b
		}
	}
	return unk
}

func succOf(st aval) aval {
	switch st.k {
	case aSucc:
		return aval{k: aTrue}
	case aCanc:
		return aval{k: aFalse}
	}
	return unk
}

func (s *sim) step(e *env, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			switch s.get(e, x.X).k {
			case aTrue:
				e.val[x] = abool(false)
			case aFalse:
				e.val[x] = abool(true)
			default:
				delete(e.val, x)
			}
		case token.MUL:
			set(e, x, s.load(e, x.X, x.Type()))
		default:
			delete(e.val, x)
		}
	case *ssa.BinOp:
		delete(e.val, x)
		if x.Op == token.EQL || x.Op == token.NEQ {
			l, r := s.get(e, x.X), s.get(e, x.Y)
			res := 0
			switch {
			case isB(l) && isB(r):
				res = tri(l.k == r.k)
			case l.k == aConst && r.k == aConst:
				res = tri(l.cause == r.cause)
			case l.k == aSucc && r.k == aSucc:
				res = 1
			case l.k == aSucc && r.k == aCanc, l.k == aCanc && r.k == aSucc:
				res = -1
			case l.k == aNil && r.k == aNil:
				res = 1
			case l.k == aNil && r.k == aNonNil, l.k == aNonNil && r.k == aNil:
				res = -1
			}
			if res != 0 {
				e.val[x] = abool((res == 1) == (x.Op == token.EQL))
			}
		} else if x.Op == token.AND || x.Op == token.OR {
			l, r := s.get(e, x.X), s.get(e, x.Y)
			if isB(l) && isB(r) {
				if x.Op == token.AND {
					e.val[x] = abool(l.k == aTrue && r.k == aTrue)
				} else {
					e.val[x] = abool(l.k == aTrue || r.k == aTrue)
				}
			}
		}
	case *ssa.Field:
		v := s.get(e, x.X)
		switch {
		case isState(x.X.Type()) && x.Field == 0:
			set(e, x, succOf(v))
		case isCarrier(x.X.Type()) && x.Field == stateField(x.X.Type()):
			set(e, x, v)
		default:
			delete(e.val, x)
			if isState(x.X.Type()) && v.k == aCanc {
				e.val[x] = aval{aNonNil, v.cause}
			}
		}
	case *ssa.FieldAddr:
		delete(e.val, x)
	case *ssa.Store:
		v := s.get(e, x.Val)
		if k, ok := cellOf(x.Addr); ok {
			if v.k == aUnknown {
				delete(e.mem, k)
			} else {
				e.mem[k] = v
			}
			if k.field == -1 {
				// whole store: forget stale field facts
				for f := range e.mem {
					if f.base == k.base && f.field >= 0 {
						delete(e.mem, f)
					}
				}
			}
		}
	case *ssa.Extract:
		// set at the call; leave
		if _, ok := e.val[x]; !ok {
			delete(e.val, x)
		}
	case *ssa.MakeInterface:
		e.val[x] = aval{k: aNonNil}
	case *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Convert:
		delete(e.val, in.(ssa.Value))
	case *ssa.Phi:
	case *ssa.Call:
		s.call(e, x)
	case ssa.Value:
		delete(e.val, x)
	}
}

func set(e *env, v ssa.Value, a aval) {
	if a.k == aUnknown {
		delete(e.val, v)
	} else {
		e.val[v] = a
	}
}

func isB(a aval) bool { return a.k == aTrue || a.k == aFalse }
func tri(b bool) int {
	if b {
		return 1
	}
	return -1
}

func extracts(c *ssa.Call) []*ssa.Extract {
	var out []*ssa.Extract
	for _, r := range *c.Referrers() {
		if x, ok := r.(*ssa.Extract); ok {
			out = append(out, x)
		}
	}
	return out
}

func (s *sim) call(e *env, c *ssa.Call) {
	delete(e.val, c)
	for _, x := range extracts(c) {
		delete(e.val, x)
	}
	callee := staticCallee(&c.Call)
	if callee == nil {
		return
	}
	switch {
	case isFunc(callee, "handler", "Success"):
		e.val[c] = aval{k: aSucc}
		return
	case isFunc(callee, "handler", "Cancelation"):
		arg := c.Call.Args[0]
		cause := canonVal(arg)
		if v, ok := e.val[arg]; ok && v.k == aNonNil && v.cause != "" {
			cause = v.cause
		}
		e.val[c] = aval{aCanc, cause}
		return
	}
	if s.depth >= 3 || callee.Blocks == nil || !inModule(callee) {
		return
	}
	// evaluate the callee only if it is told about a state
	rel := false
	sub := newEnv()
	for i, arg := range c.Call.Args {
		v := s.get(e, arg)
		if al, ok := arg.(*ssa.Alloc); ok {
			t := deref(al.Type())
			if isCarrier(t) || isState(t) {
				v = s.load(e, al, t)
			}
		}
		if i < len(callee.Params) && v.k != aUnknown {
			pr := callee.Params[i]
			switch v.k {
			case aCanc, aSucc:
				if v.k == aCanc {
					rel = true
				}
				if isPtr(pr.Type()) {
					sub.mem[cellKey{pr, stateField(pr.Type())}] = v
				}
				sub.val[pr] = v
			case aTrue, aFalse:
				sub.val[pr] = v
			}
			if v.cause != "" && v.k == aNonNil {
				rel = true
				sub.val[pr] = v
			}
		}
	}
	if !rel {
		return
	}
	t := &sim{a: s.a, fn: callee, depth: s.depth + 1, seen: map[string]bool{}, retSeen: map[string]bool{}, trace: map[*ssa.BasicBlock]bool{}}
	t.run(callee.Blocks[0], 0, nil, sub)
	if t.overrun || len(t.rets) == 0 {
		return
	}
	n := callee.Signature.Results().Len()
	res := make([]aval, n)
	for i := 0; i < n; i++ {
		for j, r := range t.rets {
			if j == 0 {
				res[i] = r.vals[i]
			} else if res[i] != r.vals[i] {
				res[i] = unk
			}
		}
	}
	if n == 1 {
		set(e, c, res[0])
	} else {
		for _, x := range extracts(c) {
			set(e, x, res[x.Index])
		}
	}
}

// run explores all paths from instruction i of block b.
func (s *sim) run(b *ssa.BasicBlock, i int, pred *ssa.BasicBlock, e *env) {
	for {
		s.trace[b] = true
		s.steps++
		if s.steps > 60000 {
			s.overrun = true
			return
		}
		if i == 0 {
			if pred != nil {
				// phis in parallel
				type pv struct {
					p *ssa.Phi
					v aval
				}
				var ps []pv
				idx := -1
				for k, q := range b.Preds {
					if q == pred {
						idx = k
						break
					}
				}
				for _, in := range b.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					ps = append(ps, pv{ph, s.get(e, ph.Edges[idx])})
				}
				for _, x := range ps {
					set(e, x.p, x.v)
				}
			}
			// a value defined in this block is recomputed: forget old facts
			key := fmt.Sprintf("%d|%s", b.Index, e.sig())
			if s.seen[key] {
				return
			}
			s.seen[key] = true
		}
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if s.stopAt != nil && in == s.stopAt {
				return
			}
			if s.onInstr != nil {
				s.onInstr(in, e)
			}
			switch x := in.(type) {
			case *ssa.Return:
				var vals []aval
				for _, r := range x.Results {
					v := s.get(e, r)
					if isPtr(r.Type()) && (isCarrier(r.Type()) || isState(deref(r.Type()))) && v.k != aCanc && v.k != aSucc {
						v = s.load(e, r, deref(r.Type()))
						if v.k == aUnknown {
							v = s.get(e, r)
						}
					}
					vals = append(vals, v)
				}
				k := fmt.Sprintf("%p %v", x, vals)
				if !s.retSeen[k] {
					s.retSeen[k] = true
					s.rets = append(s.rets, retInfo{x, vals})
				}
				return
			case *ssa.Panic:
				return
			case *ssa.If:
				c := s.get(e, x.Cond)
				if c.k == aTrue {
					pred, b, i = b, b.Succs[0], 0
				} else if c.k == aFalse {
					pred, b, i = b, b.Succs[1], 0
				} else {
					e2 := e.clone()
					assumeIf(e2, x.Cond, true)
					s.run(b.Succs[0], 0, b, e2)
					e = e.clone()
					assumeIf(e, x.Cond, false)
					pred, b, i = b, b.Succs[1], 0
				}
				goto next
			case *ssa.Jump:
				pred, b, i = b, b.Succs[0], 0
				goto next
			default:
				s.step(e, in)
			}
		}
		return
	next:
	}
}

// assumeIf records a branch fact only where another branch can test it again.
func assumeIf(e *env, v ssa.Value, b bool) {
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		v, b = u.X, !b
	}
	if x, ok := v.(*ssa.UnOp); ok && x.Op == token.MUL {
		if fa, ok := x.X.(*ssa.FieldAddr); ok && fa.Field == 0 && isState(deref(fa.X.Type())) {
			if al, ok := fa.X.(*ssa.Alloc); ok {
				if b {
					e.mem[cellKey{al, -1}] = aval{k: aSucc}
				} else {
					e.mem[cellKey{al, -1}] = aval{aCanc, "?"}
				}
				return
			}
		}
	}
	if x, ok := v.(*ssa.Field); ok && x.Field == 0 && isState(x.X.Type()) {
		if b {
			e.val[x.X] = aval{k: aSucc}
		} else {
			e.val[x.X] = aval{aCanc, "?"}
		}
		return
	}
	if _, isBin := v.(*ssa.BinOp); !isBin {
		if r := v.Referrers(); r == nil || len(*r) < 2 {
			return
		}
	} else if r := v.Referrers(); r == nil || len(*r) < 2 {
		return
	}
	assume(e, v, b)
}

func assume(e *env, v ssa.Value, b bool) {
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	e.val[v] = abool(b)
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			assume(e, x.X, !b)
		}
	case *ssa.BinOp:
		if (x.Op == token.EQL) == b && (x.Op == token.EQL || x.Op == token.NEQ) {
			if c, ok := x.Y.(*ssa.Const); ok && c.Value == nil && !isState(c.Type()) {
				e.val[x.X] = aval{k: aNil}
			}
		} else if x.Op == token.NEQ || x.Op == token.EQL {
			if c, ok := x.Y.(*ssa.Const); ok && c.Value == nil && !isState(c.Type()) {
				if e.val[x.X].k == aUnknown {
					e.val[x.X] = aval{k: aNonNil}
				}
			}
		}
	}
}
