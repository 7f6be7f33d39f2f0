package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C02"] = checkC02 }

//go:embed tables/events.json
var eventsTable []byte

// hasHandlerField: a (pointer to) module struct holding a handler.
func handlerField(t types.Type) bool { return handlerFieldDepth(t, 0) }

func handlerFieldDepth(t types.Type, d int) bool {
	if d > 3 {
		return false
	}
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isHandlerType(s.Field(i).Type()) {
			return true
		}
		if s.Field(i).Embedded() && handlerFieldDepth(s.Field(i).Type(), d+1) {
			return true
		}
	}
	return false
}

// handlerInScope: the function is told whose handler to obey.
func handlerInScope(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		for _, p := range g.Params {
			if isHandlerType(p.Type()) || handlerField(p.Type()) {
				return true
			}
			if sl, ok := p.Type().Underlying().(*types.Slice); ok && handlerField(sl.Elem()) {
				return true
			}
		}
	}
	return false
}

// fromScope: v is (a copy of, or a wrapper around) a handler in scope.
func fromScope(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter:
		return isHandlerType(x.Type()) || handlerField(x.Type()) || implementsHandler(x.Type())
	case *ssa.FreeVar:
		return true
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return isHandlerType(deref(fa.Type()))
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			return fromScope(fv, seen)
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			any := false
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a {
					if isNop(st.Val) {
						continue
					}
					if !fromScope(st.Val, seen) {
						return false
					}
					any = true
				}
			}
			return any
		}
	case *ssa.Field:
		return isHandlerType(x.Type())
	case *ssa.Phi:
		any := false
		for _, e := range x.Edges {
			if isNop(e) {
				continue
			}
			if !fromScope(e, seen) {
				return false
			}
			any = true
		}
		return any
	case *ssa.MakeInterface:
		return fromScope(x.X, seen)
	case *ssa.ChangeInterface:
		return fromScope(x.X, seen)
	case *ssa.Extract:
		return fromScope(x.Tuple, seen)
	case *ssa.TypeAssert:
		return fromScope(x.X, seen)
	case *ssa.Alloc:
		// wrapper literal around a handler in scope
		for _, r := range *x.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok {
				for _, r2 := range *fa.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == fa && isHandlerType(st.Val.Type()) && fromScope(st.Val, seen) {
						return true
					}
				}
			}
		}
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if isHandlerType(a.Type()) && fromScope(a, seen) {
				return true
			}
		}
		// an accessor returning the handler held by its receiver
		if f := staticCallee(&x.Call); f != nil && isHandlerType(x.Type()) && f.Signature.Recv() != nil && handlerField(f.Signature.Recv().Type()) {
			return true
		}
		if f := staticCallee(&x.Call); f != nil && isHandlerType(x.Type()) {
			for _, a := range x.Call.Args {
				if handlerField(a.Type()) {
					return true
				}
			}
		}
	}
	return false
}

func implementsHandler(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "ShouldResume" {
			return true
		}
	}
	return false
}

// Calls that may run without the caller's handler although one is in scope;
// each was read and confirmed.
var unforwardedOK = map[string]string{
	"(*model/enum.modelEnumBddCollector).Commit -> bdd.CompileWithKernel": "the BDD of one found model (a single cube): bounded work between two questions to the handler",
	"model/enum.ToBddOnSolverWithConfig -> bdd.Compile":                   "the BDD of the constant false used as the empty result",
}

type entryEvents struct {
	Events map[string]bool `json:"events"` // event -> asked again and again (inside a loop or a recursion)
}

func checkC02(c *Ctx) {
	p := c.P
	c.Rule("handler-forwarded", "where a handler is in scope, every callee that accepts a handler is given that handler (or a wrapper of it), never a different or empty one", 90)
	c.Rule("no-uncontrolled-work", "where a handler is in scope, no computation that could obey a handler is started through its handler-free variant", 400)
	c.Rule("events-asked", "every entry point that takes a handler still asks it, somewhere in the code it runs, about each of its events, repeatedly where the work is repeated", 150)
	c.Rule("started-first", "a computation asks the handler about its start before it does any controlled work", 10)

	// functions that poll somewhere below themselves
	polls := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && isPollCommon(ci.Common()) {
					polls[f] = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			if !polls[f] {
				for _, s := range p.callee[f] {
					if polls[s.to] && s.to.Name() != "ShouldResume" {
						polls[f] = true
						ch = true
						break
					}
				}
			}
		}
	}
	// the handler-free variants: functions without a handler in scope that
	// hand the empty handler (or no handler) to an exported sibling
	uncontrolled := map[*ssa.Function]string{}
	for _, f := range p.Funcs {
		if handlerInScope(f) || f.Parent() != nil {
			continue
		}
		for _, s := range p.callee[f] {
			if s.ins == nil || !polls[s.to] || !exported(s.to) || pkgOf(s.to) != pkgOf(f) {
				continue
			}
			if cancelKindOf(s.ins.Common()) == notCancellable && len(stateResults(s.ins.Common().Signature())) > 0 {
				uncontrolled[f] = rel(s.to)
			}
		}
	}
	for _, f := range p.Funcs {
		if !handlerInScope(f) || f.Name() == "ShouldResume" {
			continue
		}
		ord := map[string]int{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				name := calleeName(cc)
				mk := func() string {
					ord[name]++
					k := rel(f) + " -> " + name
					if ord[name] > 1 {
						k += fmt.Sprintf(" #%d", ord[name])
					}
					return k
				}
				pos := p.pos(in.Pos())
				hs, params, traced := handlerArgs(cc)
				callee := staticCallee(cc)
				if callee != nil && callee.Signature.Recv() != nil && isNamed(callee.Signature.Recv().Type(), "sat", "CallParams") {
					// building parameters: judged where they are used
					continue
				}
				if len(hs) > 0 || params {
					if isPollCommon(cc) {
						continue
					}
					isStateCall := len(stateResults(cc.Signature())) > 0
					key := mk()
					why := unforwardedOK[key]
					switch {
					case why != "":
						c.Ok("handler-forwarded", key, pos)
					case !traced:
						// parameters built elsewhere: they carry the handler
						// they were built with
						c.Ok("handler-forwarded", key, pos)
					case params && len(hs) == 0:
						c.Cond(!isStateCall, "handler-forwarded", key, pos, "the SAT call is made without the handler in scope")
					default:
						bad := ""
						for _, h := range hs {
							if !fromScope(h, map[ssa.Value]bool{}) {
								bad = "the handler passed on is not the one in scope"
							}
						}
						c.Cond(bad == "", "handler-forwarded", key, pos, bad)
					}
					continue
				}
				for _, t := range p.Targets(cc) {
					if !inModule(t) {
						continue
					}
					w := uncontrolled[t]
					key := mk()
					if unforwardedOK[key] != "" {
						w = ""
					}
					c.Cond(w == "", "no-uncontrolled-work", key, pos, rel(t)+" runs "+w+" without any handler although one is in scope")
				}
			}
		}
	}
	// events per entry point
	got := p.entryEvents()
	if os.Getenv("VERIF_DUMP") == "events" {
		b, _ := json.MarshalIndent(got, "", " ")
		fmt.Println(string(b))
	}
	var want map[string]entryEvents
	if err := json.Unmarshal(eventsTable, &want); err != nil {
		panic(err)
	}
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		g, ok := got[n]
		if c.fixture {
			break
		}
		var evs []string
		for e := range want[n].Events {
			evs = append(evs, e)
		}
		sort.Strings(evs)
		for _, e := range evs {
			loop, has := g.Events[e]
			key := n + " asks about " + e
			switch {
			case !ok:
				c.Bad("events-asked", key, "", "the entry point no longer exists or no longer takes a handler")
			case !has:
				c.Bad("events-asked", key, "", "no code reachable from the entry point asks the handler about this event any more")
			case want[n].Events[e] && !loop:
				c.Bad("events-asked", key, "", "the handler is asked about this event only once instead of each time the work is repeated")
			default:
				c.Ok("events-asked", key, "")
			}
		}
	}
	// started first
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				cl, ok := in.(*ssa.Call)
				if !ok || !isPollCommon(&cl.Call) || f.Name() == "ShouldResume" {
					continue
				}
				ev := eventName(cl.Call.Args[len(cl.Call.Args)-1])
				if !strings.HasSuffix(ev, "Started") {
					continue
				}
				bad := ""
				for _, b2 := range f.Blocks {
					for j, in2 := range b2.Instrs {
						c2, ok := in2.(*ssa.Call)
						if !ok || c2 == cl {
							continue
						}
						if len(stateResults(c2.Call.Signature())) == 0 && !isPollCommon(&c2.Call) {
							continue
						}
						g := staticCallee(&c2.Call)
						if isFunc(g, "handler", "Success") || isFunc(g, "handler", "Cancelation") || isAccessor(c2) {
							continue
						}
						if b2 == b && j > i || b2 != b && b.Dominates(b2) {
							continue
						}
						bad = calleeName(&c2.Call) + " can run at " + p.pos(c2.Pos()) + " before the handler is asked about the start"
					}
				}
				c.Cond(bad == "", "started-first", rel(f)+": "+ev, p.pos(cl.Pos()), bad)
			}
		}
	}
}

// entryEvents computes, per exported function that takes a handler, the events
// it can ask about and whether the asking sits in a loop or recursion.
func (p *Program) entryEvents() map[string]entryEvents {
	type site struct {
		ev   string
		loop bool
	}
	direct := map[*ssa.Function][]site{}
	loops := map[*ssa.Function]map[*ssa.BasicBlock]bool{}
	for _, f := range p.Funcs {
		if f.Name() == "ShouldResume" {
			continue
		}
		loops[f] = loopBlocks(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && isPollCommon(ci.Common()) {
					args := ci.Common().Args
					for _, ev := range eventNames(args[len(args)-1], p, f, 0) {
						direct[f] = append(direct[f], site{ev, loops[f][b]})
					}
				}
			}
		}
	}
	// recursion: functions on a call-graph cycle
	rec := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		seen := map[*ssa.Function]bool{}
		st := []*ssa.Function{}
		for _, s := range p.callee[f] {
			st = append(st, s.to)
		}
		for len(st) > 0 && !rec[f] {
			g := st[len(st)-1]
			st = st[:len(st)-1]
			if g == f {
				rec[f] = true
			}
			if g == nil || seen[g] {
				continue
			}
			seen[g] = true
			for _, s := range p.callee[g] {
				st = append(st, s.to)
			}
		}
	}
	out := map[string]entryEvents{}
	for _, f := range p.Funcs {
		if !exported(f) || f.Name() == "ShouldResume" || implementsHandlerFn(f) {
			continue
		}
		takes := false
		for _, q := range f.Params {
			if isHandlerType(q.Type()) || isPtr(q.Type()) && isNamed(q.Type(), "model/iter", "Config") && q != f.Params[0] {
				takes = true
			}
			if sl, ok := q.Type().Underlying().(*types.Slice); ok && isNamed(sl.Elem(), "sat", "CallParams") {
				takes = true
			}
		}
		if r := f.Signature.Recv(); r != nil && isNamed(r.Type(), "model/iter", "ModelIterator") {
			takes = true
		}
		if !takes {
			continue
		}
		// BFS over (function, inLoop)
		type st struct {
			f    *ssa.Function
			loop bool
		}
		ev := map[string]bool{}
		seen := map[st]bool{}
		q := []st{{f, false}}
		seen[q[0]] = true
		for len(q) > 0 {
			s := q[0]
			q = q[1:]
			inl := s.loop || rec[s.f]
			for _, d := range direct[s.f] {
				ev[d.ev] = ev[d.ev] || inl || d.loop
			}
			for _, cs := range p.callee[s.f] {
				if cs.to == nil || !handlerInScope(cs.to) || cs.to.Name() == "ShouldResume" {
					continue
				}
				if cs.ins != nil {
					hs, params, traced := handlerArgs(cs.ins.Common())
					if traced && params && len(hs) == 0 {
						continue
					}
					skip := false
					for _, h := range hs {
						if isNop(h) || !fromScope(h, map[ssa.Value]bool{}) {
							skip = true
						}
					}
					if skip {
						continue
					}
				}
				l := inl
				if cs.ins != nil && loops[s.f][cs.ins.Block()] {
					l = true
				}
				n := st{cs.to, l}
				if !seen[n] && !(n.loop == false && seen[st{cs.to, true}]) {
					seen[n] = true
					q = append(q, n)
				}
			}
		}
		if len(ev) > 0 {
			out[rel(f)] = entryEvents{ev}
		}
	}
	return out
}

func implementsHandlerFn(f *ssa.Function) bool {
	return f.Signature.Recv() != nil && implementsHandler(f.Signature.Recv().Type())
}

// eventNames resolves the event(s) a poll can be about, through parameters of
// helpers that are handed the event.
func eventNames(v ssa.Value, p *Program, f *ssa.Function, d int) []string {
	if d > 4 {
		return []string{eventName(v)}
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return eventNames(x.X, p, f, d+1)
	case *ssa.ChangeInterface:
		return eventNames(x.X, p, f, d+1)
	case *ssa.Phi:
		var out []string
		for _, e := range x.Edges {
			out = append(out, eventNames(e, p, f, d+1)...)
		}
		return out
	case *ssa.Parameter:
		if !types.IsInterface(x.Type()) && !isNamed(x.Type(), "event", "event") {
			break
		}
		idx := -1
		for i, q := range f.Params {
			if q == x {
				idx = i
			}
		}
		var out []string
		for _, s := range p.caller[f] {
			if s.ins != nil {
				args := s.ins.Common().Args
				if s.ins.Common().IsInvoke() {
					args = append([]ssa.Value{nil}, args...)
				}
				if idx < len(args) && args[idx] != nil {
					out = append(out, eventNames(args[idx], p, s.fn, d+1)...)
				}
			}
		}
		if len(out) > 0 {
			return out
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok {
				if s := soleStore(a); s != nil {
					return eventNames(s, p, f, d+1)
				}
			}
		}
	}
	return []string{eventName(v)}
}

// loopBlocks: blocks on a CFG cycle.
func loopBlocks(f *ssa.Function) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		seen := map[*ssa.BasicBlock]bool{}
		st := append([]*ssa.BasicBlock{}, b.Succs...)
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if x == b {
				out[b] = true
				break
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			st = append(st, x.Succs...)
		}
	}
	return out
}
