package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- reordering

// disabledAt: whether reordering is certainly disabled before every
// instruction of the function.
func (b *bddCheck) disabledAt(f *ssa.Function, entry bool) map[ssa.Instruction]bool {
	in := map[*ssa.BasicBlock]bool{}
	for _, bl := range f.Blocks {
		in[bl] = true
	}
	in[f.Blocks[0]] = entry
	res := map[ssa.Instruction]bool{}
	for changed := true; changed; {
		changed = false
		for _, bl := range f.Blocks {
			cur := in[bl]
			for _, i := range bl.Instrs {
				res[i] = cur
				if ci, ok := i.(*ssa.Call); ok {
					switch b.switches(&ci.Call) {
					case "off":
						cur = true
					case "on":
						cur = false
					}
				}
			}
			for _, s := range bl.Succs {
				if in[s] && !cur {
					in[s] = false
					changed = true
				}
			}
		}
	}
	return res
}

// switches: whether the call switches reordering on or off.
func (b *bddCheck) switches(cc *ssa.CallCommon) string {
	g := staticCallee(cc)
	if g == nil || !bddFn(canonOf(g)) {
		return ""
	}
	return b.sw[canonOf(g)]
}

// findSwitches: the functions whose last word on reorderDisabled is a constant.
func (b *bddCheck) findSwitches() {
	b.sw = map[*ssa.Function]string{}
	for _, f := range b.fns {
		if len(f.Blocks) != 1 {
			continue
		}
		for _, in := range f.Blocks[0].Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldKey(fa.X.Type(), fa.Field) == "bdd.reordering.reorderDisabled" {
					if cn, ok := s.Val.(*ssa.Const); ok && cn.Value != nil && cn.Value.Kind() == constant.Bool {
						b.sw[f] = "on"
						if constant.BoolVal(cn.Value) {
							b.sw[f] = "off"
						}
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range b.fns {
			if b.sw[f] != "" || len(f.Blocks) != 1 {
				continue
			}
			for _, in := range f.Blocks[0].Instrs {
				if ci, ok := in.(*ssa.Call); ok {
					if s := b.switches(&ci.Call); s != "" && len(b.p.callsOf(f)) > 0 {
						if b.sw[f] == "" {
							changed = true
						}
						b.sw[f] = s
					}
				}
			}
		}
	}
	// functions that are only called while reordering is disabled
	for _, f := range b.fns {
		if len(b.p.callsOf(f)) > 0 && !exported(f) && f.Parent() == nil {
			b.off[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range b.fns {
			if !b.off[f] {
				continue
			}
			for _, ci := range b.p.callsOf(f) {
				if !b.disabledAt(ci.Parent(), b.off[canonOf(ci.Parent())])[ci] {
					delete(b.off, f)
					changed = true
					break
				}
			}
		}
	}
}

func (b *bddCheck) flags() {
	c, p := b.c, b.p
	b.findSwitches()
	reorders := b.callers(func(f *ssa.Function) bool { return f.Name() == "reorderInit" })
	for _, f := range b.fns {
		at := b.disabledAt(f, b.off[f])
		n := map[string]int{}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !flagging(call.Call.Signature()) {
					continue
				}
				if g := staticCallee(&call.Call); g != nil && !bddFn(canonOf(g)) {
					continue
				}
				name := "operation"
				if g := staticCallee(&call.Call); g != nil {
					name = g.Name()
				}
				n[name]++
				key := fmt.Sprintf("%s: %s %d", rel(f), name, n[name])
				if at[call] && f.Signature.Results().Len() != 2 {
					c.Ok("flag", key, p.pos(call.Pos()))
					continue
				}
				fl := extractOf(call, 1)
				if fl == nil {
					if isTail(call) {
						c.Ok("flag", key, p.pos(call.Pos()))
						continue
					}
					c.Bad("flag", key, p.pos(call.Pos()), "the request to reorder is ignored although reordering is not disabled: the computation goes on with a node that does not exist")
					continue
				}
				bad := b.flagged(f, call, fl, reorders)
				c.Cond(bad == "", "flag", key, p.pos(call.Pos()), bad)
			}
		}
		// every section in which reordering is disabled ends
		for _, bl := range f.Blocks {
			for i, in := range bl.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || b.switches(&call.Call) != "off" || b.sw[f] != "" {
					continue
				}
				bad := ""
				seen := map[*ssa.BasicBlock]bool{}
				var walk func(x *ssa.BasicBlock, from int)
				walk = func(x *ssa.BasicBlock, from int) {
					for _, in := range x.Instrs[from:] {
						switch y := in.(type) {
						case *ssa.Defer:
							if b.switches(&y.Call) == "on" {
								return
							}
						case *ssa.Call:
							if b.switches(&y.Call) == "on" {
								return
							}
						case *ssa.Return:
							bad = "the function may return (" + p.pos(y.Pos()) + ") with reordering still disabled"
							return
						}
					}
					for _, s := range x.Succs {
						if !seen[s] {
							seen[s] = true
							walk(s, 0)
						}
					}
				}
				// a deferred call before it counts as well
				deferred := false
				for _, bl2 := range f.Blocks {
					for _, in2 := range bl2.Instrs {
						if d, ok := in2.(*ssa.Defer); ok && b.switches(&d.Call) == "on" && bl2.Dominates(bl) {
							deferred = true
						}
					}
				}
				if !deferred {
					walk(bl, i+1)
				}
				c.Cond(bad == "", "paired", rel(f), p.pos(call.Pos()), bad)
			}
		}
	}
}

// isTail: the results of the call are returned as they are.
func isTail(call *ssa.Call) bool {
	for _, r := range *call.Referrers() {
		if _, ok := r.(*ssa.Return); ok {
			return true
		}
	}
	return false
}

// flagged: what happens once the flag of the call is true.
func (b *bddCheck) flagged(f *ssa.Function, call *ssa.Call, fl ssa.Value, reorders map[*ssa.Function]bool) string {
	p := b.p
	bad := ""
	type item struct {
		bl, pred *ssa.BasicBlock
		i        int
		known    map[ssa.Value]bool
		reord    bool
		off      bool
	}
	start := 0
	for i, in := range call.Block().Instrs {
		if in == ssa.Instruction(call) {
			start = i + 1
		}
	}
	seen := map[string]bool{}
	work := []item{{bl: call.Block(), i: start, known: map[ssa.Value]bool{fl: true}}}
	for len(work) > 0 && len(seen) < 3000 && bad == "" {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		known := map[ssa.Value]bool{}
		for k, v := range it.known {
			known[k] = v
		}
		val := func(v ssa.Value) (bool, bool) {
			if cn, ok := v.(*ssa.Const); ok && cn.Value != nil && cn.Value.Kind() == constant.Bool {
				return constant.BoolVal(cn.Value), true
			}
			x, ok := known[v]
			return x, ok
		}
		if it.i == 0 {
			upd := map[ssa.Value]bool{}
			for _, in := range it.bl.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				delete(known, ph)
				for j, pr := range it.bl.Preds {
					if pr == it.pred {
						if x, ok := it.known[ph.Edges[j]]; ok {
							upd[ph] = x
						} else if x, ok := val(ph.Edges[j]); ok {
							upd[ph] = x
						}
					}
				}
			}
			for k, v := range upd {
				known[k] = v
			}
			sig := fmt.Sprint(it.bl.Index)
			if it.pred != nil {
				sig += fmt.Sprint("<", it.pred.Index)
			}
			sig += fmt.Sprint(it.reord, it.off)
			if seen[sig] {
				continue
			}
			seen[sig] = true
		}
		dead := false
		for _, in := range it.bl.Instrs[it.i:] {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.NOT {
					if v, ok := val(x.X); ok {
						known[x] = !v
					}
				}
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && !it.reord {
					bad = "after a request to reorder " + fieldKey(fa.X.Type(), fa.Field) + " is still written (" + p.pos(x.Pos()) + ")"
					dead = true
				}
			case *ssa.Return:
				dead = true
				if flagging(f.Signature) {
					if v, ok := val(x.Results[1]); !ok || !v {
						if cl, isC := x.Results[1].(*ssa.Extract); isC && ok == false && cl.Tuple != fl.(*ssa.Extract).Tuple {
							bad = "the request to reorder is lost: another one is returned instead (" + p.pos(x.Pos()) + ")"
						} else {
							bad = "the request to reorder is not returned (" + p.pos(x.Pos()) + ")"
						}
					}
				} else if !it.reord && f.Signature.Results().Len() > 0 {
					bad = "the result is returned although a reordering was requested (" + p.pos(x.Pos()) + ")"
				}
			case *ssa.Panic:
				dead = true
			case *ssa.Call:
				g := staticCallee(&x.Call)
				switch {
				case g != nil && reorders[canonOf(g)]:
					if flagging(f.Signature) {
						bad = "the operation goes on after a request to reorder (" + p.pos(x.Pos()) + ")"
						dead = true
					}
					it.reord = true
				case b.switches(&x.Call) == "off":
					it.off = true
				case b.isGC(x):
					if !it.reord {
						bad = "the operation goes on after a request to reorder (" + p.pos(x.Pos()) + ")"
					} else if g == nil && !it.off {
						bad = "the operation is redone while reordering is still possible (" + p.pos(x.Pos()) + ")"
					}
					dead = true
				}
			}
			if dead {
				break
			}
		}
		if dead {
			continue
		}
		succs := it.bl.Succs
		if ifi, ok := it.bl.Instrs[len(it.bl.Instrs)-1].(*ssa.If); ok {
			if v, ok := val(ifi.Cond); ok {
				if v {
					succs = succs[:1]
				} else {
					succs = succs[1:]
				}
			}
		}
		for _, s := range succs {
			work = append(work, item{bl: s, pred: it.bl, known: known, reord: it.reord, off: it.off})
		}
	}
	return bad
}

// ---------------------------------------------------------------- redoing

// orderRead: the value comes from the table of the nodes or from the order of
// the variables.
func (b *bddCheck) orderRead(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		if prim(&x.Call, "level", "low", "high", "hash", "next", "vari", "nodehash", "getLevel") {
			return true
		}
		if g := staticCallee(&x.Call); g != nil && b.gc[canonOf(g)] {
			return false // a node, which keeps its meaning
		}
		for _, a := range x.Call.Args {
			if b.orderRead(a, seen) {
				return true
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if b.orderRead(e, seen) {
				return true
			}
		}
	case *ssa.BinOp:
		return b.orderRead(x.X, seen) || b.orderRead(x.Y, seen)
	case *ssa.Convert:
		return b.orderRead(x.X, seen)
	case *ssa.ChangeType:
		return b.orderRead(x.X, seen)
	case *ssa.Extract:
		return b.orderRead(x.Tuple, seen)
	case *ssa.FreeVar:
		if bv := bindingOf(x); bv != nil {
			return b.orderRead(bv, seen)
		}
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(x) && b.orderRead(s.Val, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.IndexAddr:
				if k, _ := valueFieldKey(a.X, 0); k == "bdd.Kernel.var2level" || k == "bdd.Kernel.level2var" {
					return true
				}
				return b.orderRead(a.Index, seen)
			case *ssa.Alloc, *ssa.FreeVar:
				return b.orderRead(a, seen)
			}
		} else {
			return b.orderRead(x.X, seen)
		}
	}
	return false
}

func (b *bddCheck) redone() {
	c, p := b.c, b.p
	// the functions that run an operation handed in
	runs := map[*ssa.Function]int{}
	for _, f := range b.fns {
		for i, prm := range f.Params {
			if s, ok := prm.Type().Underlying().(*types.Signature); ok && flagging(s) {
				runs[f] = i
			}
		}
	}
	ops := map[*ssa.Function]bool{}
	for _, f := range b.fns {
		n := 0
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := staticCallee(&call.Call)
				if g == nil {
					continue
				}
				i, ok := runs[canonOf(g)]
				if !ok || i >= len(call.Call.Args) {
					continue
				}
				n++
				key := fmt.Sprintf("%s %d", rel(f), n)
				var op *ssa.Function
				var bind []ssa.Value
				switch x := call.Call.Args[i].(type) {
				case *ssa.MakeClosure:
					op, bind = x.Fn.(*ssa.Function), x.Bindings
				case *ssa.Function:
					op = x
				}
				if op == nil {
					continue
				}
				ops[op] = true
				bad := ""
				for j, v := range bind {
					if b.orderRead(v, map[ssa.Value]bool{}) {
						bad = op.FreeVars[j].Name() + ", which the operation uses, was read from the nodes or the order before the operation, and is out of date when the operation is redone after a reordering"
					}
				}
				c.Cond(bad == "", "redone", key, p.pos(call.Pos()), bad)
			}
		}
	}
	// inOp: only run as a part of an operation
	inOp := map[*ssa.Function]bool{}
	for _, f := range b.fns {
		inOp[f] = ops[f] || len(p.callsOf(f)) > 0 && !exported(f)
	}
	for changed := true; changed; {
		changed = false
		for _, f := range b.fns {
			if !inOp[f] || ops[f] {
				continue
			}
			for _, ci := range p.callsOf(f) {
				if !inOp[canonOf(ci.Parent())] {
					inOp[f] = false
					changed = true
				}
			}
		}
	}
	// what depends on the order and is kept in the kernel
	var store func(f *ssa.Function) (string, token.Pos)
	store = func(f *ssa.Function) (string, token.Pos) {
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				k := ""
				dep := false
				switch a := s.Addr.(type) {
				case *ssa.FieldAddr:
					k = fieldKey(a.X.Type(), a.Field)
					dep = b.orderRead(s.Val, map[ssa.Value]bool{})
				case *ssa.IndexAddr:
					k, _ = valueFieldKey(a.X, 0)
					dep = b.orderRead(s.Val, map[ssa.Value]bool{}) || b.orderRead(a.Index, map[ssa.Value]bool{})
				}
				switch k {
				case "bdd.Kernel.quantvarset", "bdd.Kernel.quantlast":
					if dep {
						return k, s.Pos()
					}
				}
			}
		}
		return "", 0
	}
	for _, f := range b.fns {
		k, pos := store(f)
		if k == "" {
			continue
		}
		if inOp[f] {
			c.Ok("redone", rel(f), p.pos(pos))
			continue
		}
		where := p.pos(pos)
		for _, ci := range p.callsOf(f) {
			if !inOp[canonOf(ci.Parent())] {
				where = p.pos(ci.Pos())
			}
		}
		c.Bad("redone", rel(f), where, k+", which depends on the order, is filled outside the operation that uses it, and is out of date when the operation is redone after a reordering")
	}
}

// ---------------------------------------------------------------- marks

// levelMask: a call that sets (or clears) the mark of a node; returns the node.
func levelMask(in ssa.Instruction) (node ssa.Value, set, clear bool) {
	call, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	if prim(&call.Call, "setMark") {
		return call.Call.Args[1], true, false
	}
	if prim(&call.Call, "unmarkNode") {
		return call.Call.Args[1], false, true
	}
	if !prim(&call.Call, "setLevel") || len(call.Call.Args) != 3 {
		return
	}
	bo, ok := call.Call.Args[2].(*ssa.BinOp)
	if !ok {
		return
	}
	k, isC := intConst(bo.Y)
	if !isC {
		k, isC = intConst(bo.X)
	}
	switch {
	case isC && bo.Op == token.OR && k == 0x200000:
		return call.Call.Args[1], true, false
	case isC && bo.Op == token.AND && k&0x200000 == 0, isC && bo.Op == token.AND_NOT && k == 0x200000:
		return call.Call.Args[1], false, true
	}
	return
}

func (b *bddCheck) marks() {
	c, p := b.c, b.p
	marker, unmarker := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range b.fns {
		rec := map[string]bool{}
		var set, clear bool
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				n, s, cl := levelMask(in)
				if n != nil && paramIndex(n) >= 0 {
					set, clear = set || s, clear || cl
				}
				if call, ok := in.(*ssa.Call); ok && staticCallee(&call.Call) != nil && canonOf(staticCallee(&call.Call)) == f {
					rec["yes"] = true
					for _, a := range call.Call.Args {
						if ch, ok := a.(*ssa.Call); ok && prim(&ch.Call, "low") {
							rec["low"] = true
						} else if ok && prim(&ch.Call, "high") {
							rec["high"] = true
						}
					}
				}
			}
		}
		if !rec["yes"] || !set && !clear {
			continue
		}
		if set {
			marker[f] = true
		} else {
			unmarker[f] = true
		}
		bad := ""
		if rec["low"] != rec["high"] {
			bad = "only one of the children is visited"
		}
		c.Cond(bad == "", "marks", rel(f)+" visits", p.pos(f.Pos()), bad)
	}
	root := func(call *ssa.Call) ssa.Value {
		for _, a := range call.Call.Args {
			if isInt32(a.Type()) {
				return a
			}
		}
		return nil
	}
	for _, f := range b.fns {
		if marker[f] || unmarker[f] {
			continue
		}
		n := 0
		for _, bl := range f.Blocks {
			for i, in := range bl.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := staticCallee(&call.Call)
				if g == nil {
					continue
				}
				if marker[canonOf(g)] {
					n++
					key := fmt.Sprintf("%s: %s %d", rel(f), g.Name(), n)
					bad := ""
					r := root(call)
					seen := map[*ssa.BasicBlock]bool{}
					var walk func(x *ssa.BasicBlock, from int)
					walk = func(x *ssa.BasicBlock, from int) {
						if from == 0 && b.sweeps(x) {
							return
						}
						for _, in := range x.Instrs[from:] {
							if c2, ok := in.(*ssa.Call); ok {
								if h := staticCallee(&c2.Call); h != nil && unmarker[canonOf(h)] && root(c2) == r {
									return
								}
								if b.isGC(c2) {
									bad = "nodes are created (" + p.pos(c2.Pos()) + ") while others are still marked"
									return
								}
							}
							if rt, ok := in.(*ssa.Return); ok {
								bad = "the marks are not taken back before the function returns (" + p.pos(rt.Pos()) + ")"
								return
							}
						}
						for _, s := range x.Succs {
							if !seen[s] {
								seen[s] = true
								walk(s, 0)
							}
						}
					}
					walk(bl, i+1)
					c.Cond(bad == "", "marks", key, p.pos(call.Pos()), bad)
				}
				if unmarker[canonOf(g)] {
					n++
					key := fmt.Sprintf("%s: %s %d", rel(f), g.Name(), n)
					ok := false
					for _, bl2 := range f.Blocks {
						for _, in2 := range bl2.Instrs {
							if c2, isC := in2.(*ssa.Call); isC {
								if h := staticCallee(&c2.Call); h != nil && marker[canonOf(h)] && root(c2) == root(call) && (bl2.Dominates(bl) && bl2 != bl || bl2 == bl && after(c2, call)) {
									ok = true
								}
							}
						}
					}
					c.Cond(ok, "marks", key, p.pos(call.Pos()), "everything below the node is unmarked although it was not marked from this node: marks that others rely on are lost")
				}
			}
		}
	}
}

// sweeps: the block is the head of a loop over all nodes that clears their
// marks.
func (b *bddCheck) sweeps(h *ssa.BasicBlock) bool {
	f := h.Parent()
	isHead := false
	for _, pr := range h.Preds {
		if h.Dominates(pr) {
			isHead = true
		}
	}
	// the counter of a for-range loop is tested at the bottom as well
	for _, bl := range f.Blocks {
		if !isHead && bl != h {
			continue
		}
		for _, in := range bl.Instrs {
			n, _, cl := levelMask(in)
			if n == nil || !cl || !h.Dominates(bl) {
				continue
			}
			if !inLoop(bl) {
				continue
			}
			if v := counter(n); v != nil && (v.Block() == h || h == bl) {
				return true
			}
		}
	}
	return false
}

// counter: the loop counter a value is taken from.
func counter(v ssa.Value) *ssa.Phi {
	switch x := v.(type) {
	case *ssa.Phi:
		return x
	case *ssa.Convert:
		return counter(x.X)
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB {
			return counter(x.X)
		}
	}
	return nil
}

// ---------------------------------------------------------------- collection

// span: the bounds of the loop counter: first value, and the value compared
// with.
func span(ph *ssa.Phi) (first int, bound ssa.Value, op token.Token, ok bool) {
	ok = false
	for _, e := range ph.Edges {
		if k, isC := intConst(e); isC {
			first, ok = k, true
		}
	}
	if !ok {
		return
	}
	ok = false
	tests := []ssa.Value{ph}
	for _, r := range *ph.Referrers() {
		if bo, isB := r.(*ssa.BinOp); isB && bo.Op == token.ADD {
			tests = append(tests, bo)
		}
		if cv, isC := r.(*ssa.Convert); isC {
			tests = append(tests, cv)
		}
	}
	for i, t := range tests {
		for _, r := range *t.Referrers() {
			bo, isB := r.(*ssa.BinOp)
			if !isB {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ:
				if bo.X == t {
					if _, isP := t.(*ssa.BinOp); isP && i > 0 && first < 0 {
						first++
					}
					return first, bo.Y, bo.Op, true
				}
			}
		}
	}
	return
}

// fieldOf: the field the value is loaded from, through conversions.
func fieldOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Convert:
		return fieldOf(x.X)
	}
	k, _ := valueFieldKey(v, 0)
	return k
}

func (b *bddCheck) collection() {
	c, p := b.c, b.p
	for _, f := range b.fns {
		if f.Name() != "gbc" || f.Parent() != nil {
			continue
		}
		stack, refs := "the nodes on the stack are not marked", "the referenced nodes are not marked"
		var markers []*ssa.Call
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !prim(&call.Call, "mark") {
					continue
				}
				markers = append(markers, call)
				arg := call.Call.Args[1]
				// an element of the stack
				if ld, ok := arg.(*ssa.UnOp); ok && ld.Op == token.MUL {
					if ia, ok := ld.X.(*ssa.IndexAddr); ok {
						base := ia.X
						full := false
						if sl, ok := base.(*ssa.Slice); ok && sl.Low == nil {
							base = sl.X
							if fieldOf(sl.High) == "bdd.Kernel.refstacktop" {
								full = true
							}
						}
						if fieldOf(base) == "bdd.Kernel.refstack" {
							stack = ""
							if ph := counter(ia.Index); ph != nil {
								if first, bound, op, ok := span(ph); ok {
									if first > 0 {
										stack = "the first nodes on the stack are not marked"
									}
									if bo, ok := unconv(bound).(*ssa.BinOp); ok && bo.Op == token.SUB && !full {
										stack = "the last nodes on the stack are not marked"
									}
									_ = op
								}
							}
						}
					}
				}
				if counter(arg) != nil && stack != "" || counter(arg) != nil {
					ph := counter(arg)
					if _, isElem := arg.(*ssa.UnOp); !isElem {
						refs = ""
						if first, bound, _, ok := span(ph); ok {
							if first > 2 {
								refs = "the first referenced nodes are not marked"
							}
							if bo, ok := unconv(bound).(*ssa.BinOp); ok && bo.Op == token.SUB {
								refs = "the last referenced nodes are not marked"
							}
						}
						if b.skips(call, ph, arg) {
							refs = "referenced nodes may be left unmarked"
						}
					}
				}
			}
		}
		c.Cond(stack == "", "collected", rel(f)+" stack", p.pos(f.Pos()), stack)
		c.Cond(refs == "", "collected", rel(f)+" references", p.pos(f.Pos()), refs)
		// nothing is freed before it
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if n, k := b.freeing(in); n != nil {
					_ = k
					for _, m := range markers {
						if after(in, m) {
							c.Bad("collected", rel(f)+" order", p.pos(in.Pos()), "nodes are freed before all that is needed is marked")
						}
					}
				}
			}
		}
	}
	// a node is freed only if it is not needed
	for _, f := range b.fns {
		n := 0
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				node, _ := b.freeing(in)
				if node == nil || f.Name() == "nodeResize" || f.Name() == "NewKernel" {
					continue
				}
				ph := counter(node)
				if ph == nil {
					continue
				}
				n++
				// is the instruction reached without one of the facts
				open := b.factCut(bl, ph.Block(), node, func(cond ssa.Value, want bool) bool { return b.unneeded(cond, want, node) })
				c.Cond(!open, "collected", fmt.Sprintf("%s frees %d", rel(f), n), p.pos(in.Pos()), "a node is freed although it may be marked or referenced")
			}
		}
	}
}

// freeing: the node becomes free.
func (b *bddCheck) freeing(in ssa.Instruction) (ssa.Value, int) {
	call, ok := in.(*ssa.Call)
	if !ok || !prim(&call.Call, "setLow") {
		return nil, 0
	}
	if k, ok := intConst(call.Call.Args[2]); ok && k == -1 {
		return call.Call.Args[1], k
	}
	return nil, 0
}

// factCut: whether the block is reached from the head without passing an edge
// that establishes the fact.
func (b *bddCheck) factCut(to, head *ssa.BasicBlock, n ssa.Value, fact func(cond ssa.Value, want bool) bool) bool {
	seen := map[*ssa.BasicBlock]bool{head: true}
	work := []*ssa.BasicBlock{head}
	for len(work) > 0 {
		bl := work[len(work)-1]
		work = work[:len(work)-1]
		if bl == to {
			return true
		}
		ifi, _ := bl.Instrs[len(bl.Instrs)-1].(*ssa.If)
		for i, s := range bl.Succs {
			if ifi != nil && fact(ifi.Cond, i == 0) {
				continue
			}
			if !seen[s] && s != head {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return false
}

// markedTest: cond is the test whether the node is marked (pos) or not.
func markedTest(cond ssa.Value, n ssa.Value) (is, pos bool) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			is, pos = markedTest(x.X, n)
			return is, !pos
		}
	case *ssa.Call:
		if prim(&x.Call, "marked") && x.Call.Args[1] == n {
			return true, true
		}
	case *ssa.BinOp:
		if k, ok := intConst(x.Y); ok && k == 0 {
			if a, ok := x.X.(*ssa.BinOp); ok && a.Op == token.AND {
				if l, ok := a.X.(*ssa.Call); ok && prim(&l.Call, "level") && l.Call.Args[1] == n {
					return true, x.Op == token.NEQ
				}
			}
		}
	}
	return
}

// refTest: cond is the test whether the node is referenced.
func refTest(cond ssa.Value, n ssa.Value) (is, pos bool) {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			is, pos = refTest(x.X, n)
			return is, !pos
		}
	case *ssa.Call:
		if prim(&x.Call, "hasref") && x.Call.Args[1] == n {
			return true, true
		}
	case *ssa.BinOp:
		l, ok := x.X.(*ssa.Call)
		k, isC := intConst(x.Y)
		if !ok || !isC || !prim(&l.Call, "refcou") || l.Call.Args[1] != n {
			return
		}
		switch {
		case x.Op == token.GTR && k == 0, x.Op == token.NEQ && k == 0, x.Op == token.GEQ && k == 1:
			return true, true
		case x.Op == token.EQL && k == 0, x.Op == token.LEQ && k == 0, x.Op == token.LSS && k == 1:
			return true, false
		}
	}
	return
}

// freeTest: cond is the test whether the node is free already.
func freeTest(cond ssa.Value, n ssa.Value) (is, pos bool) {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return
	}
	l, ok := bo.X.(*ssa.Call)
	k, isC := intConst(bo.Y)
	if !ok || !isC || k != -1 || !prim(&l.Call, "low") || l.Call.Args[1] != n {
		return
	}
	return bo.Op == token.EQL || bo.Op == token.NEQ, bo.Op == token.EQL
}

func (b *bddCheck) unneeded(cond ssa.Value, want bool, n ssa.Value) bool {
	if is, pos := markedTest(cond, n); is && pos != want {
		return true
	}
	if is, pos := refTest(cond, n); is && pos != want {
		return true
	}
	if is, pos := freeTest(cond, n); is && pos == want {
		return true
	}
	return false
}

// skips: whether a node that is referenced once may get through the loop
// without being marked.
func (b *bddCheck) skips(call *ssa.Call, ph *ssa.Phi, n ssa.Value) bool {
	head := ph.Block()
	if !inLoop(head) {
		return false
	}
	// the body of the loop
	body := map[*ssa.BasicBlock]bool{head: true}
	var back func(x *ssa.BasicBlock)
	back = func(x *ssa.BasicBlock) {
		if !body[x] {
			body[x] = true
			for _, pr := range x.Preds {
				back(pr)
			}
		}
	}
	for _, pr := range head.Preds {
		if head.Dominates(pr) {
			back(pr)
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{head}
	for len(work) > 0 {
		bl := work[len(work)-1]
		work = work[:len(work)-1]
		if bl == call.Block() {
			continue
		}
		ifi, _ := bl.Instrs[len(bl.Instrs)-1].(*ssa.If)
		for i, s := range bl.Succs {
			if !body[s] {
				continue
			}
			if ifi != nil && b.harmless(ifi.Cond, i == 0, n) {
				continue
			}
			if s == head {
				return true
			}
			if !seen[s] {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return false
}

// harmless: the edge is not taken by a node that is referenced once, or may be
// taken because the node is marked already, free or a constant.
func (b *bddCheck) harmless(cond ssa.Value, want bool, n ssa.Value) bool {
	if is, pos := markedTest(cond, n); is {
		return pos == want
	}
	if is, pos := freeTest(cond, n); is {
		return pos == want
	}
	if is, pos := refTest(cond, n); is {
		return pos != want
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	k, isC := intConst(bo.Y)
	if !isC {
		return false
	}
	if l, ok := bo.X.(*ssa.Call); ok && prim(&l.Call, "refcou") && l.Call.Args[1] == n {
		var v bool
		switch bo.Op {
		case token.GTR:
			v = 1 > k
		case token.GEQ:
			v = 1 >= k
		case token.LSS:
			v = 1 < k
		case token.LEQ:
			v = 1 <= k
		case token.EQL:
			v = k == 1
		case token.NEQ:
			v = k != 1
		}
		return v != want
	}
	if unconv(bo.X) == unconv(n) {
		return bo.Op == token.LSS && want && k <= 2 || bo.Op == token.GEQ && !want && k <= 2
	}
	return false
}

func unconv(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Convert); ok {
		return unconv(c.X)
	}
	return v
}

// ---------------------------------------------------------------- uniqueness

func (b *bddCheck) unique() {
	c, p := b.c, b.p
	sizeWriters := b.callers(func(f *ssa.Function) bool {
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldKey(fa.X.Type(), fa.Field) == "bdd.Kernel.nodesize" {
						return true
					}
				}
			}
		}
		return false
	})
	for _, f := range b.fns {
		// hashes
		n := 0
		for _, bl := range f.Blocks {
			for i, in := range bl.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !prim(&call.Call, "nodehash", "nodehashReorder") {
					continue
				}
				n++
				key := fmt.Sprintf("%s: %s %d", rel(f), staticCallee(&call.Call).Name(), n)
				bad := b.hashArgs(call)
				if bad == "" && prim(&call.Call, "nodehash") {
					if lost := b.staleHash(call, bl, i, sizeWriters); lost != "" {
						bad = lost
					}
				}
				c.Cond(bad == "", "unique", key, p.pos(call.Pos()), bad)
			}
		}
		b.lookup(f)
	}
}

// role: what a value is for the node being built or hashed.
func (b *bddCheck) roles(f *ssa.Function) map[ssa.Value]string {
	m := map[ssa.Value]string{}
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || len(call.Call.Args) != 3 {
				continue
			}
			for _, r := range []string{"Level", "Low", "High"} {
				if prim(&call.Call, "set"+r) {
					if paramIndex(call.Call.Args[2]) >= 0 {
						m[call.Call.Args[2]] = map[string]string{"Level": "level", "Low": "low", "High": "high"}[r]
					}
				}
			}
		}
	}
	return m
}

func (b *bddCheck) roleOf(v ssa.Value, m map[ssa.Value]string) string {
	if r, ok := m[v]; ok {
		return r
	}
	if call, ok := v.(*ssa.Call); ok {
		for _, r := range []string{"level", "low", "high"} {
			if prim(&call.Call, r) {
				return r
			}
		}
		if prim(&call.Call, "vari") {
			return "level"
		}
	}
	return ""
}

func (b *bddCheck) hashArgs(call *ssa.Call) string {
	m := b.roles(call.Parent())
	args := call.Call.Args
	if len(args) == 4 && !isInt32(args[0].Type()) {
		args = args[1:]
	}
	for i, want := range []string{"level", "low", "high"} {
		if i < len(args) {
			if r := b.roleOf(args[i], m); r != "" && r != want {
				return "the hash of the node is computed with its " + r + " in the place of its " + want
			}
		}
	}
	return ""
}

// staleHash: the hash is used after the size of the table has changed.
func (b *bddCheck) staleHash(call *ssa.Call, bl *ssa.BasicBlock, at int, writers map[*ssa.Function]bool) string {
	p := b.p
	type item struct {
		bl, pred *ssa.BasicBlock
		i        int
		v        ssa.Value
		dirty    bool
	}
	seen := map[string]bool{}
	work := []item{{bl: bl, i: at + 1, v: call}}
	for len(work) > 0 && len(seen) < 2000 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.i == 0 {
			for _, in := range it.bl.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					for j, pr := range it.bl.Preds {
						if pr == it.pred && ph.Edges[j] == it.v {
							it.v = ph
							break
						}
					}
				}
			}
		}
		sig := fmt.Sprint(it.bl.Index, it.i, it.v.Name(), it.dirty)
		if seen[sig] {
			continue
		}
		seen[sig] = true
		stop := false
		for _, in := range it.bl.Instrs[it.i:] {
			if in == ssa.Instruction(call) {
				stop = true
				break
			}
			c2, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if it.dirty && prim(&c2.Call, "hash", "setHash") && len(c2.Call.Args) > 1 && c2.Call.Args[1] == it.v {
				return "the hash is used (" + p.pos(c2.Pos()) + ") after the table has got another size: the node is filed in the wrong place and will not be found again"
			}
			if g := staticCallee(&c2.Call); g != nil && writers[canonOf(g)] {
				it.dirty = true
			}
		}
		if stop {
			continue
		}
		for _, s := range it.bl.Succs {
			work = append(work, item{bl: s, pred: it.bl, v: it.v, dirty: it.dirty})
		}
	}
	return ""
}

// lookup judges the functions that look for an existing node and otherwise
// build one.
func (b *bddCheck) lookup(f *ssa.Function) {
	c, p := b.c, b.p
	m := b.roles(f)
	if len(m) == 0 {
		return
	}
	// the new node: taken from the free list
	var walkers []*ssa.Phi
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				h, nx := false, false
				for _, e := range ph.Edges {
					if call, ok := e.(*ssa.Call); ok {
						h = h || prim(&call.Call, "hash")
						nx = nx || prim(&call.Call, "next")
					}
				}
				if h && nx {
					walkers = append(walkers, ph)
				}
			}
		}
	}
	byRole := map[string]ssa.Value{}
	for v, r := range m {
		byRole[r] = v
	}
	for _, w := range walkers {
		for _, role := range []string{"level", "low", "high"} {
			v := byRole[role]
			if v == nil {
				continue
			}
			whole := false
			for _, bl := range f.Blocks {
				for _, in := range bl.Instrs {
					if call, ok := in.(*ssa.Call); ok && prim(&call.Call, "nodehash") {
						whole = true
					}
				}
			}
			if role == "level" && !whole {
				continue // the hash chains are separated by level
			}
			bad := ""
			for _, bl := range f.Blocks {
				r, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return)
				if !ok || len(r.Results) == 0 || r.Results[0] != ssa.Value(w) {
					continue
				}
				if b.factCut(bl, w.Block(), w, func(cond ssa.Value, want bool) bool {
					bo, ok := cond.(*ssa.BinOp)
					if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || (bo.Op == token.EQL) != want {
						return false
					}
					for _, xy := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
						if call, ok := xy[0].(*ssa.Call); ok && xy[1] == v && (prim(&call.Call, role) || role == "level" && prim(&call.Call, "vari")) && call.Call.Args[1] == ssa.Value(w) {
							return true
						}
					}
					return false
				}) {
					bad = "an existing node is taken although its " + role + " may be another one"
				}
			}
			c.Cond(bad == "", "unique", rel(f)+" compares "+role, p.pos(f.Pos()), bad)
		}
		// redundant tests
		if lo, hi := byRole["low"], byRole["high"]; lo != nil && hi != nil {
			found := false
			for _, bl := range f.Blocks {
				if ifi, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.If); ok {
					if bo, ok := ifi.Cond.(*ssa.BinOp); ok && (bo.X == lo && bo.Y == hi || bo.X == hi && bo.Y == lo) && bl.Dominates(w.Block()) {
						found = true
					}
				}
			}
			c.Cond(found, "unique", rel(f)+" redundant", p.pos(f.Pos()), "a node with equal children is built: equivalent formulas get different nodes")
		}
	}
}

// facts: what is known about boolean values on the current path.
type facts map[ssa.Value]bool

func (k facts) val(v ssa.Value) (bool, bool) {
	if cn, ok := v.(*ssa.Const); ok && cn.Value != nil && cn.Value.Kind() == constant.Bool {
		return constant.BoolVal(cn.Value), true
	}
	if x, ok := k[v]; ok {
		return x, true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		x, ok := k.val(u.X)
		return !x, ok
	}
	return false, false
}

// enter resolves the phis of a block that is entered from pred.
func (k facts) enter(bl, pred *ssa.BasicBlock) facts {
	n := facts{}
	for v, x := range k {
		n[v] = x
	}
	for _, in := range bl.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		delete(n, ph)
		for j, pr := range bl.Preds {
			if pr == pred {
				if x, ok := k.val(ph.Edges[j]); ok {
					n[ph] = x
				}
			}
		}
	}
	return n
}

// next: the successors that are possible, with what is known there.
func (k facts) next(bl *ssa.BasicBlock) (succs []*ssa.BasicBlock, known []facts) {
	ifi, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.If)
	if !ok {
		for _, s := range bl.Succs {
			succs = append(succs, s)
			known = append(known, k.enter(s, bl))
		}
		return
	}
	x, ok := k.val(ifi.Cond)
	for i, s := range bl.Succs {
		if ok && x != (i == 0) {
			continue
		}
		n := facts{}
		for v, y := range k {
			n[v] = y
		}
		cond, want := ifi.Cond, i == 0
		for {
			u, isNot := cond.(*ssa.UnOp)
			if !isNot || u.Op != token.NOT {
				break
			}
			cond, want = u.X, !want
		}
		switch cond.(type) {
		case *ssa.Extract, *ssa.Phi:
			n[cond] = want
		}
		succs = append(succs, s)
		known = append(known, n.enter(s, bl))
	}
	return
}

// forget drops what is known about a value that is computed anew.
func (k facts) forget(call *ssa.Call) {
	if call.Referrers() == nil {
		return
	}
	for _, r := range *call.Referrers() {
		if e, ok := r.(*ssa.Extract); ok {
			delete(k, e)
		}
	}
}

func (k facts) sig() string {
	var s []string
	for v, x := range k {
		s = append(s, fmt.Sprint(v.Name(), x))
	}
	sort.Strings(s)
	return fmt.Sprint(s)
}
