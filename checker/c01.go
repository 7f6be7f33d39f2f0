package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C01"] = checkC01 }

func isHandlerType(t types.Type) bool { return isNamed(t, "handler", "Handler") && !isPtr(t) }

func isPollCommon(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		return c.Method.Name() == "ShouldResume"
	}
	f := c.StaticCallee()
	return f != nil && f.Name() == "ShouldResume" && f.Signature.Recv() != nil
}

// isNop reports whether a handler value is statically the handler that never
// cancels.
func isNop(v ssa.Value) bool { return isNop1(v, 0) }

func isNop1(v ssa.Value, d int) bool {
	if d > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return isNop1(x.X, d+1)
	case *ssa.ChangeInterface:
		return isNop1(x.X, d+1)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			return g.Name() == "NopHandler" && g.Pkg.Pkg.Path() == modPath+"/handler"
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			if s := soleStore(a); s != nil {
				return isNop1(s, d+1)
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !isNop1(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return x.Value == nil // nil handler: treated as "no handler" by the callee
	}
	return false
}

// isLocalHandler: the handler is an internal budget: constructed in this
// function, or handed to an unexported helper under its concrete type.
func isLocalHandler(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		switch x := mi.X.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.Parameter:
			return !exported(x.Parent())
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.Alloc); ok {
				if s := soleStore(a); s != nil {
					if _, isA := s.(*ssa.Alloc); isA {
						return true
					}
				}
			}
			return false
		case *ssa.Call:
			f := staticCallee(&x.Call)
			if f == nil {
				return false
			}
			for i := 0; i < f.Signature.Params().Len(); i++ {
				if isHandlerType(f.Signature.Params().At(i).Type()) {
					return false
				}
			}
			return true
		}
	}
	return false
}

type cancelKind int

const (
	notCancellable cancelKind = iota
	cancellable
	localBudget
)

// handlerArgs are the handlers a call is given, directly or through a chain of
// call parameters.
func handlerArgs(c *ssa.CallCommon) (hs []ssa.Value, params bool, traced bool) {
	traced = true
	for _, a := range c.Args {
		if isHandlerType(a.Type()) {
			hs = append(hs, a)
			continue
		}
		if isPtr(a.Type()) && isNamed(a.Type(), "model/iter", "Config") {
			params = true
			h, ok := configHandlers(a)
			hs = append(hs, h...)
			traced = traced && ok
		} else if isNamed(a.Type(), "sat", "CallParams") {
			params = true
			h, ok := paramHandlers(a, 0)
			hs = append(hs, h...)
			traced = traced && ok
		} else if sl, ok := a.Type().Underlying().(*types.Slice); ok && isNamed(sl.Elem(), "sat", "CallParams") {
			params = true
			ok := false
			if s, isS := a.(*ssa.Slice); isS {
				if al, isA := s.X.(*ssa.Alloc); isA {
					ok = true
					for _, r := range *al.Referrers() {
						if ia, isI := r.(*ssa.IndexAddr); isI {
							for _, r2 := range *ia.Referrers() {
								if st, isSt := r2.(*ssa.Store); isSt && st.Addr == ia {
									h, o := paramHandlers(st.Val, 0)
									hs = append(hs, h...)
									ok = ok && o
								}
							}
						}
					}
				}
			} else if cst, isC := a.(*ssa.Const); isC && cst.Value == nil {
				ok = true
			}
			traced = traced && ok
		}
	}
	return
}

// configHandlers: the handlers stored in a freshly built configuration.
func configHandlers(v ssa.Value) ([]ssa.Value, bool) {
	var al *ssa.Alloc
	switch x := v.(type) {
	case *ssa.Alloc:
		al = x
	case *ssa.Call:
		f := staticCallee(&x.Call)
		if f == nil || f.Blocks == nil || f.Signature.Recv() != nil || len(x.Call.Args) > 0 {
			return nil, false
		}
		// a constructor without arguments: look into it, and at what the
		// caller stores into the result afterwards
		var hs []ssa.Value
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				h, ok := configHandlers(r.Results[0])
				if !ok {
					return nil, false
				}
				hs = append(hs, h...)
			}
		}
		var over []ssa.Value
		for _, r := range *x.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok && isHandlerType(deref(fa.Type())) {
				for _, r2 := range *fa.Referrers() {
					if st, ok := r2.(*ssa.Store); ok {
						over = append(over, st.Val)
					}
				}
			}
		}
		if len(over) > 0 {
			return over, true
		}
		return hs, true
	default:
		return nil, false
	}
	var hs []ssa.Value
	for _, r := range *al.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok && isHandlerType(deref(fa.Type())) {
			for _, r2 := range *fa.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					hs = append(hs, st.Val)
				}
			}
		}
	}
	return hs, len(hs) > 0
}

func paramHandlers(v ssa.Value, d int) ([]ssa.Value, bool) {
	if d > 12 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Call:
		f := staticCallee(&x.Call)
		if f == nil || !isNamed(f.Signature.Results().At(0).Type(), "sat", "CallParams") {
			return nil, false
		}
		var hs []ssa.Value
		recv := f.Signature.Recv() != nil
		for i, a := range x.Call.Args {
			if recv && i == 0 {
				continue
			}
			if isHandlerType(a.Type()) {
				hs = append(hs, a)
			}
		}
		if len(hs) > 0 {
			return hs, true // Handler(...) replaces earlier ones
		}
		if recv {
			return paramHandlers(x.Call.Args[0], d+1)
		}
		// a builder function of another package part
		for _, a := range x.Call.Args {
			if isNamed(a.Type(), "sat", "CallParams") {
			} else if isNamed(a.Type(), "sat", "CallParams") {
				return paramHandlers(a, d+1)
			}
		}
		return nil, pkgOf(f) != nil && shortPkg(pkgOf(f)) == "sat"
	case *ssa.Phi:
		var hs []ssa.Value
		for _, e := range x.Edges {
			h, ok := paramHandlers(e, d+1)
			if !ok {
				return nil, false
			}
			hs = append(hs, h...)
		}
		return hs, true
	}
	return nil, false
}

func cancelKindOf(c *ssa.CallCommon) cancelKind {
	hs, params, traced := handlerArgs(c)
	if !traced {
		return cancellable
	}
	if len(hs) == 0 {
		if params {
			return notCancellable // SAT call without any handler
		}
		return cancellable
	}
	nop, local := true, true
	for _, h := range hs {
		if !isNop(h) {
			nop = false
		}
		if !isLocalHandler(h) {
			local = false
		}
	}
	if nop {
		return notCancellable
	}
	if local {
		return localBudget
	}
	return cancellable
}

// stateResults returns the indices of results that are or carry a State.
func stateResults(sig *types.Signature) []int {
	var out []int
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if isState(t) || isCarrier(t) {
			out = append(out, i)
		}
	}
	return out
}

// A cleanup call may run on a cancelled path although it can itself report a
// state: it brings collected models back into a consistent state.
func isCleanup(c *ssa.CallCommon) bool {
	var n string
	if c.IsInvoke() {
		n = c.Method.Name()
		return (n == "Rollback" || n == "Commit") && isNamed(c.Value.Type(), "model/iter", "Collector")
	}
	return false
}

type cancelSource struct {
	call  *ssa.Call
	poll  bool
	stopK akind // for bool-convention calls: the value that means cancelled
	idx   int   // result carrying the state / bool
}

func (a *canc) sources(f *ssa.Function, conv map[*ssa.Function]boolConv) []cancelSource {
	var out []cancelSource
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if isPollCommon(&c.Call) {
				out = append(out, cancelSource{call: c, poll: true, stopK: aFalse})
				continue
			}
			if g := staticCallee(&c.Call); g != nil {
				if isFunc(g, "handler", "Success") || isFunc(g, "handler", "Cancelation") {
					continue
				}
				if cv, ok := conv[g]; ok {
					out = append(out, cancelSource{call: c, poll: true, stopK: cv.stop, idx: cv.idx})
					continue
				}
			}
			for _, i := range stateResults(c.Call.Signature()) {
				out = append(out, cancelSource{call: c, idx: i})
			}
		}
	}
	return out
}

type boolConv struct {
	stop akind
	idx  int
}

// resultVal finds the SSA value of result idx of a call; discarded when nil.
func resultVal(c *ssa.Call, idx int) ssa.Value {
	if c.Call.Signature().Results().Len() == 1 {
		if len(*c.Referrers()) == 0 {
			return nil
		}
		return c
	}
	for _, x := range extracts(c) {
		if x.Index == idx && len(*x.Referrers()) > 0 {
			return x
		}
	}
	return nil
}

// accessor: a State obtained by asking a carrier (res.State()): the carrier is
// the source, not the accessor.
func isAccessor(c *ssa.Call) bool {
	f := staticCallee(&c.Call)
	return f != nil && f.Signature.Recv() != nil && isCarrier(f.Signature.Recv().Type()) && f.Signature.Params().Len() == 0
}

// startAfter runs the interpreter from just behind the call with the call's
// result assumed to mean "cancelled".
func (a *canc) startAfter(f *ssa.Function, src cancelSource, onInstr func(ssa.Instruction, *env)) *sim {
	s := &sim{a: a, fn: f, seen: map[string]bool{}, retSeen: map[string]bool{}, onInstr: onInstr, trace: map[*ssa.BasicBlock]bool{}}
	e := newEnv()
	v := resultVal(src.call, src.idx)
	if v == nil {
		v = src.call
	}
	if src.poll {
		e.val[v] = aval{k: src.stopK}
	} else {
		e.val[v] = aval{aCanc, "src"}
		if isPtr(v.Type()) {
			e.mem[cellKey{v, stateField(v.Type())}] = aval{aCanc, "src"}
		}
	}
	if !src.poll {
		if g := staticCallee(&src.call.Call); g != nil {
			for _, x := range extracts(src.call) {
				if x.Index != src.idx {
					if cv := a.companions(g, src.idx); cv != nil && cv[x.Index].k != aUnknown {
						e.val[x] = cv[x.Index]
					}
				}
			}
		}
	}
	i := 0
	for k, in := range src.call.Block().Instrs {
		if in == src.call {
			i = k + 1
		}
	}
	// extracts of this call follow it; step() keeps the preset value
	s.run(src.call.Block(), i, nil, e)
	return s
}

func checkC01(c *Ctx) {
	a := newCanc(c.P)
	c.Rule("poll-stops", "whenever a handler is asked and answers stop, every path from there leaves the function reporting a cancelled state whose cause is the event that was asked about, and asks or computes nothing further", 35)
	c.Rule("state-propagates", "whenever a callee reports a cancelled state, every path from there leaves the function reporting a cancelled state with the callee's cause (or, for a budget local to the function, without touching the callee's partial result)", 120)
	c.Rule("partial-result-unused", "what a cancelled callee returned next to its state is not stored, passed on or returned as a result of its own", 120)
	c.Rule("state-not-discarded", "the state of a computation that was given a caller's handler is looked at", 120)

	conv := a.conventions()
	nconv := []string{}
	for f := range conv {
		nconv = append(nconv, rel(f))
	}
	c.Extra["bool_convention_helpers"] = nconv

	for _, f := range c.P.Funcs {
		if f.Name() == "ShouldResume" {
			continue
		}
		a.checkFunc(c, f, conv)
	}
}

// companions: what the other results of g are certain to be whenever g reports
// a cancelled state.
func (a *canc) companions(g *ssa.Function, idx int) []aval {
	if r, ok := a.comp[g]; ok {
		return r
	}
	if g.Blocks == nil || !inModule(g) {
		return nil
	}
	a.comp[g] = nil
	s := &sim{a: a, fn: g, seen: map[string]bool{}, retSeen: map[string]bool{}, trace: map[*ssa.BasicBlock]bool{}}
	s.run(g.Blocks[0], 0, nil, newEnv())
	var res []aval
	for _, r := range s.rets {
		if idx >= len(r.vals) || r.vals[idx].k == aSucc {
			continue
		}
		if res == nil {
			res = append(res, r.vals...)
			continue
		}
		for i := range res {
			if res[i] != r.vals[i] {
				res[i] = unk
			}
		}
	}
	for i := range res {
		switch res[i].k {
		case aConst, aTrue, aFalse, aNil:
		default:
			res[i] = unk
		}
	}
	if s.overrun {
		res = nil
	}
	a.comp[g] = res
	return res
}

// boolConvention: f has exactly one bool result (possibly among others), no
// state, and every path behind a stop returns the same constant.
func (a *canc) boolConvention(f *ssa.Function, conv map[*ssa.Function]boolConv) (boolConv, bool) {
	idx := -1
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if b, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if idx >= 0 {
				return boolConv{}, false
			}
			idx = i
		}
	}
	if idx < 0 {
		return boolConv{}, false
	}
	var stop akind
	n := 0
	for _, src := range a.sources(f, conv) {
		if !src.poll && (isAccessor(src.call) || cancelKindOf(&src.call.Call) != cancellable) {
			continue
		}
		if a.carrierMethod(f) {
			return boolConv{}, false
		}
		n++
		s := a.startAfter(f, src, nil)
		for _, r := range s.rets {
			k := r.vals[idx].k
			if k != aTrue && k != aFalse || stop != 0 && k != stop {
				return boolConv{}, false
			}
			stop = k
		}
	}
	if n == 0 || stop == 0 {
		return boolConv{}, false
	}
	return boolConv{stop, idx}, true
}

func (a *canc) carrierMethod(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && isCarrier(f.Signature.Recv().Type())
}

// conventions: the helpers that report a stop as a plain bool.
func (a *canc) conventions() map[*ssa.Function]boolConv {
	conv := map[*ssa.Function]boolConv{}
	for round := 0; round < 4; round++ {
		for _, f := range a.p.Funcs {
			if _, ok := conv[f]; ok || f.Name() == "ShouldResume" || len(stateResults(f.Signature)) > 0 {
				continue
			}
			if cv, ok := a.boolConvention(f, conv); ok {
				conv[f] = cv
			}
		}
	}
	return conv
}

func (a *canc) checkFunc(c *Ctx, f *ssa.Function, conv map[*ssa.Function]boolConv) {
	resIdx := stateResults(f.Signature)
	ord := map[string]int{}
	for _, src := range a.sources(f, conv) {
		name := "poll"
		rule := "poll-stops"
		if !src.poll {
			if isAccessor(src.call) {
				continue
			}
			rule = "state-propagates"
		}
		if src.poll && isPollCommon(&src.call.Call) {
			args := src.call.Call.Args
			name = "poll of " + eventName(args[len(args)-1])
		} else {
			name = "call of " + calleeName(&src.call.Call)
		}
		ord[name]++
		key := rel(f) + ": " + name
		if ord[name] > 1 {
			key += fmt.Sprintf(" #%d", ord[name])
		}
		pos := c.P.pos(src.call.Pos())
		kind := cancellable
		if !src.poll || !isPollCommon(&src.call.Call) {
			kind = cancelKindOf(&src.call.Call)
		} else if isNop(pollRecv(&src.call.Call)) {
			kind = notCancellable
		}
		if kind == notCancellable {
			continue
		}
		if !src.poll && isCleanup(&src.call.Call) {
			// judged only when it is not a cleanup on an already cancelled path
			if a.onlyOnCancelledPaths(f, src, conv) {
				continue
			}
		}
		discarded := resultVal(src.call, src.idx) == nil
		if discarded {
			c.Bad("state-not-discarded", key, pos, "the answer is dropped, so a request to stop here is ignored")
			continue
		}
		c.Ok("state-not-discarded", key, pos)
		wantCause := "src"
		if src.poll {
			args := src.call.Call.Args
			if isPollCommon(&src.call.Call) {
				wantCause = canonVal(args[len(args)-1])
			} else {
				wantCause = ""
			}
		}
		bad := ""
		used := ""
		comp := map[ssa.Value]bool{}
		if !src.poll {
			for _, x := range extracts(src.call) {
				if !isState(x.Type()) && !isCarrier(x.Type()) && !isErr(x.Type()) {
					comp[x] = true
				}
			}
		}
		isAccept := func(in ssa.Instruction) bool { return false }
		_ = isAccept
		s := a.startAfter(f, src, func(in ssa.Instruction, e *env) {
			if ci, ok := in.(ssa.CallInstruction); ok && in != src.call {
				cc := ci.Common()
				if _, isDefer := in.(*ssa.Defer); isDefer {
					return
				}
				if isPollCommon(cc) && !isNop(pollRecv(cc)) && kind != localBudget {
					bad = "after the request to stop the handler is asked again (" + c.P.pos(in.Pos()) + "): the computation goes on"
				} else if g := staticCallee(cc); kind != localBudget && len(stateResults(cc.Signature())) > 0 && !isFunc(g, "handler", "Success") && !isFunc(g, "handler", "Cancelation") && !isCleanup(cc) {
					if cl, ok := in.(*ssa.Call); !ok || !isAccessor(cl) && !isStateOnly(g) {
						bad = "after the request to stop the computation continues with " + calleeName(cc) + " (" + c.P.pos(in.Pos()) + ")"
					}
				}
				for _, arg := range cc.Args {
					if comp[arg] {
						if _, isB := cc.Value.(*ssa.Builtin); !isB {
							used = "passed to " + calleeName(cc) + " at " + c.P.pos(in.Pos())
						}
					}
				}
			}
			switch x := in.(type) {
			case *ssa.Store:
				if comp[x.Val] && !localCell(x.Addr) {
					used = "stored at " + c.P.pos(in.Pos())
				}
			case *ssa.MapUpdate:
				if comp[x.Value] || comp[x.Key] {
					used = "stored in a map at " + c.P.pos(in.Pos())
				}
			case *ssa.Return:
				if kind == localBudget {
					for _, r := range x.Results {
						if comp[r] {
							used = "returned at " + c.P.pos(in.Pos())
						}
					}
				}
			}
		})
		if s.overrun {
			bad = "undecided: too many paths"
		}
		if len(resIdx) > 0 && kind == cancellable {
			for _, r := range s.rets {
				for _, i := range resIdx {
					v := r.vals[i]
					where := c.P.pos(r.at.Pos())
					switch {
					case v.k == aSucc:
						bad = "a path behind the request to stop returns success (" + where + ")"
					case v.k != aCanc:
						bad = "a path behind the request to stop returns a state that is not certainly cancelled (" + where + ")"
					case wantCause != "" && v.cause != wantCause && v.cause != "literal":
						bad = fmt.Sprintf("the reported cause is not the event at which the computation was stopped (%s)", where)
					}
				}
			}
		} else if kind == cancellable {
			if cv, ok := conv[f]; ok {
				_ = cv
			} else if !a.carrierMethod(f) {
				// no way to report cancellation: allowed only for functions
				// whose result object carries it elsewhere
				bad = "the function is given a handler's verdict but has no way to report it"
			}
		}
		c.Cond(bad == "", rule, key, pos, bad)
		if !src.poll {
			c.Cond(used == "", "partial-result-unused", key, pos, "the partial result of the cancelled "+calleeName(&src.call.Call)+" is "+used)
		}
	}
}

// isStateOnly: a helper that only turns states into states.
func isStateOnly(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if t := f.Signature.Params().At(i).Type(); isState(t) || isCarrier(t) || isNamed(t, "event", "Event") {
			return true
		}
	}
	return false
}

// onlyOnCancelledPaths: the call happens only behind another source's stop.
func (a *canc) onlyOnCancelledPaths(f *ssa.Function, src cancelSource, conv map[*ssa.Function]boolConv) bool {
	for _, o := range a.sources(f, conv) {
		if o.call == src.call {
			continue
		}
		dom := false
		a.startAfter(f, o, func(in ssa.Instruction, e *env) {
			if in == src.call {
				dom = true
			}
		})
		if dom && o.call.Block().Dominates(src.call.Block()) {
			// reachable when cancelled; is it unreachable when not cancelled?
			ok := false
			s := &sim{a: a, fn: f, seen: map[string]bool{}, retSeen: map[string]bool{}, trace: map[*ssa.BasicBlock]bool{}}
			s.onInstr = func(in ssa.Instruction, e *env) {
				if in == src.call {
					ok = true
				}
			}
			e := newEnv()
			v := resultVal(o.call, o.idx)
			if v == nil {
				continue
			}
			if o.poll {
				if o.stopK == aTrue {
					e.val[v] = abool(false)
				} else {
					e.val[v] = abool(true)
				}
			} else {
				e.val[v] = aval{k: aSucc}
			}
			i := 0
			for k, in := range o.call.Block().Instrs {
				if in == o.call {
					i = k + 1
				}
			}
			// stop when the source is executed again
			s.stopAt = o.call
			s.run(o.call.Block(), i, nil, e)
			if !ok {
				return true
			}
		}
	}
	return false
}

func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func localCell(addr ssa.Value) bool {
	switch x := addr.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FreeVar:
		return true
	case *ssa.IndexAddr:
		return localCell(x.X)
	case *ssa.FieldAddr:
		return localCell(x.X)
	}
	return false
}

func pollRecv(c *ssa.CallCommon) ssa.Value {
	if c.IsInvoke() {
		return c.Value
	}
	return c.Args[0]
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return strings.ReplaceAll(c.Value.Type().String(), modPath+"/", "") + "." + c.Method.Name()
	}
	if f := staticCallee(c); f != nil {
		return rel(f)
	}
	return "dynamic call"
}

func eventName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return eventName(x.X)
	case *ssa.ChangeInterface:
		return eventName(x.X)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			return g.Name()
		}
	}
	if n, ok := types.Unalias(v.Type()).(*types.Named); ok && !types.IsInterface(n) {
		return n.Obj().Name()
	}
	return "event"
}
