package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- collectors

type collector struct {
	name string
	m    map[string]*ssa.Function
	newF *ssa.Function
}

func (k *enumer) collectors() {
	p := k.p
	by := map[string]*collector{}
	for _, f := range p.Funcs {
		r := f.Signature.Recv()
		if r == nil || f.Parent() != nil {
			continue
		}
		n, ok := types.Unalias(deref(r.Type())).(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			continue
		}
		key := shortPkg(n.Obj().Pkg()) + "." + n.Obj().Name()
		if by[key] == nil {
			by[key] = &collector{name: key, m: map[string]*ssa.Function{}}
		}
		by[key].m[f.Name()] = f
	}
	for _, key := range sortedKeys(by) {
		x := by[key]
		if x.m["AddModel"] == nil || x.m["Commit"] == nil || x.m["Rollback"] == nil || x.m["RollbackAndReturnModels"] == nil || x.m["Result"] == nil {
			continue
		}
		if len(x.m["Commit"].Blocks) > 0 {
			k.collector(x)
		}
	}
}

// bookEv is what an instruction does with a field of the receiver.
type bookEv struct {
	field string
	write string // "", append, reset, other
	els   []ssa.Value
	val   ssa.Value
	read  bool
}

func recvField(f *ssa.Function, a ssa.Value) string {
	fa, ok := a.(*ssa.FieldAddr)
	if !ok || len(f.Params) == 0 {
		return ""
	}
	if fa.X == ssa.Value(f.Params[0]) {
		return fieldName(deref(fa.X.Type()), fa.Field)
	}
	return ""
}

// recvLoad: v is the value of a field of the receiver.
func recvLoad(f *ssa.Function, v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return recvField(f, u.X)
	}
	return ""
}

func freshEmpty(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.MakeSlice:
		n, ok := intConst(x.Len)
		return ok && n == 0
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if at, ok := deref(al.Type()).Underlying().(*types.Array); ok {
				if at.Len() == 0 {
					return true
				}
			}
		}
		if x.High != nil {
			n, ok := intConst(x.High)
			return ok && n == 0
		}
	}
	return false
}

func bookEvent(f *ssa.Function, in ssa.Instruction) (ev bookEv, ok bool) {
	switch x := in.(type) {
	case *ssa.Store:
		n := recvField(f, x.Addr)
		if n == "" {
			return
		}
		ev.field, ev.val = n, x.Val
		ev.write = "other"
		if freshEmpty(x.Val) {
			ev.write = "reset"
		}
		if cl, ok := x.Val.(*ssa.Call); ok {
			if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && recvLoad(f, cl.Call.Args[0]) == n {
				ev.write = "append"
				if len(cl.Call.Args) == 2 {
					ev.els = varargs(cl.Call.Args[1])
				}
			}
		}
		return ev, true
	case *ssa.UnOp:
		if n := recvLoad(f, x); n != "" {
			return bookEv{field: n, read: true}, true
		}
	case *ssa.Call:
		// a big number that is changed in place
		if g := staticCallee(&x.Call); g != nil && pkgOf(g) != nil && pkgOf(g).Path() == "math/big" && len(x.Call.Args) > 0 && bigMutator[g.Name()] {
			if n := recvLoad(f, x.Call.Args[0]); n != "" {
				return bookEv{field: n, write: "other", val: x}, true
			}
		}
	}
	return
}

var bigMutator = map[string]bool{"Add": true, "Sub": true, "Mul": true, "Set": true, "SetInt64": true, "SetUint64": true, "Exp": true, "Quo": true, "Div": true, "Neg": true, "Lsh": true, "Rsh": true, "Abs": true, "Or": true, "And": true, "Xor": true, "Not": true, "Mod": true, "Rem": true}

// sameRecvCall: a call of another method with the same receiver.
func sameRecvCall(f *ssa.Function, in ssa.Instruction) *ssa.Function {
	cl, ok := in.(*ssa.Call)
	if !ok || len(f.Params) == 0 || len(cl.Call.Args) == 0 || cl.Call.Args[0] != ssa.Value(f.Params[0]) {
		return nil
	}
	g := staticCallee(&cl.Call)
	if g == nil || !inModule(g) || len(canonOf(g).Blocks) == 0 {
		return nil
	}
	return canonOf(g)
}

// may: the instruction (or a method it calls) may do this with the books.
func may(f *ssa.Function, in ssa.Instruction, is func(bookEv) bool, d int) bool {
	if ev, ok := bookEvent(f, in); ok && is(ev) {
		return true
	}
	if g := sameRecvCall(f, in); g != nil && d < 4 {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if may(g, i, is, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// must: the instruction (or every path of a method it calls) does this.
func must(f *ssa.Function, in ssa.Instruction, is func(bookEv) bool, d int) bool {
	if ev, ok := bookEvent(f, in); ok && is(ev) {
		return true
	}
	if g := sameRecvCall(f, in); g != nil && d < 4 {
		return avoids(g, nil, func(i ssa.Instruction) bool { return must(g, i, is, d+1) }, isReturn) == nil
	}
	return false
}

func anyMay(f *ssa.Function, is func(bookEv) bool) ssa.Instruction {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if may(f, in, is, 0) {
				return in
			}
		}
	}
	return nil
}

func (k *enumer) collector(x *collector) {
	p, c := k.p, k.c
	res := x.m["Result"]
	K := ""
	for _, b := range res.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 {
				if n := recvLoad(res, r.Results[0]); n != "" {
					K = n
				}
			}
		}
	}
	if K == "" {
		k.opened("%s: the result is not a field", x.name)
		return
	}
	add := x.m["AddModel"]
	U := map[string]bool{}
	var collectU func(g *ssa.Function, d int)
	collectU = func(g *ssa.Function, d int) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ev, ok := bookEvent(g, in); ok && ev.write != "" {
					U[ev.field] = true
				}
				if h := sameRecvCall(g, in); h != nil && d < 3 {
					collectU(h, d+1)
				}
			}
		}
	}
	collectU(add, 0)
	// books read for the split models are books as well
	rr := x.m["RollbackAndReturnModels"]
	for _, b := range rr.Blocks {
		for _, in := range b.Instrs {
			if ev, ok := bookEvent(rr, in); ok && ev.read && ev.field != K && anyMay(x.m["Rollback"], func(e bookEv) bool { return e.field == ev.field && e.write != "" }) != nil {
				U[ev.field] = true
			}
		}
	}
	delete(U, "")
	writeK := func(e bookEv) bool { return e.field == K && e.write != "" }
	for _, m := range []string{"AddModel", "Rollback", "RollbackAndReturnModels"} {
		hit := anyMay(x.m[m], writeK)
		pos := p.pos(x.m[m].Pos())
		if hit != nil {
			pos = p.pos(hit.Pos())
		}
		c.Cond(hit == nil, "books", x.name+"."+m+" leaves "+K, pos, "what is committed is changed")
	}
	delete(U, K)
	if len(U) == 0 {
		k.opened("%s: no books of models that are not committed", x.name)
		return
	}
	for _, u := range sortedKeys(U) {
		u := u
		// added once on every path, made of the model
		app := func(e bookEv) bool { return e.field == u && e.write == "append" }
		other := func(e bookEv) bool { return e.field == u && e.write != "" && e.write != "append" }
		key := x.name + ".AddModel adds to " + u
		if hit := anyMay(add, other); hit != nil {
			k.opened("%s: %s is written in another way", key, u)
		} else {
			hit := avoids(add, nil, func(in ssa.Instruction) bool { return must(add, in, app, 0) }, isReturn)
			c.Cond(hit == nil, "books", key, p.pos(add.Pos()), "a model can be passed over")
			var twice ssa.Instruction
			for _, b := range add.Blocks {
				for _, in := range b.Instrs {
					if may(add, in, app, 0) {
						if h := avoids(add, in, func(ssa.Instruction) bool { return false }, func(i ssa.Instruction) bool { return may(add, i, app, 0) }); h != nil {
							twice = h
						}
						if ev, ok := bookEvent(add, in); ok {
							if len(ev.els) != 1 {
								k.opened("%s: what is added is not one element", key)
								continue
							}
							from := map[ssa.Value]bool{}
							madeOf(ev.els[0], from, 0)
							made := false
							for _, q := range add.Params[1:] {
								made = made || from[q] && (isBoolSlice(q.Type()) || isInt32Slice(q.Type()))
							}
							c.Cond(made, "books", key+" the model", p.pos(in.Pos()), "what is added is not made of the model or its indices")
						}
					}
				}
			}
			c.Cond(twice == nil, "books", key+" once", p.pos(add.Pos()), "a model can be added twice")
		}
		reset := func(e bookEv) bool { return e.field == u && e.write == "reset" }
		readU := func(e bookEv) bool { return e.field == u && e.read }
		for _, m := range []string{"Commit", "Rollback", "RollbackAndReturnModels"} {
			f := x.m[m]
			hit := avoids(f, nil, func(in ssa.Instruction) bool { return must(f, in, reset, 0) }, isReturn)
			odd := anyMay(f, func(e bookEv) bool { return e.field == u && (e.write == "other" || e.write == "append") })
			if hit != nil && odd != nil {
				k.opened("%s.%s: %s is written in another way", x.name, m, u)
				continue
			}
			c.Cond(hit == nil, "books", x.name+"."+m+" forgets "+u, p.pos(f.Pos()), "models stay in the books")
			if m == "Rollback" {
				continue
			}
			// not read after it was forgotten (another one than the reset itself)
			var late ssa.Instruction
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if must(f, in, reset, 0) && !may(f, in, readU, 0) {
						if h := avoids(f, in, func(i ssa.Instruction) bool {
							return may(f, i, func(e bookEv) bool { return e.field == u && (e.write == "append" || e.write == "other") }, 0)
						}, func(i ssa.Instruction) bool { return may(f, i, readU, 0) }); h != nil {
							late = h
						}
					}
				}
			}
			c.Cond(late == nil, "books", x.name+"."+m+" reads "+u+" first", p.pos(f.Pos()), "the models are read after they were forgotten")
		}
	}
	k.commits(x, K, U)
	k.returned(x, U)
	k.dontCares(x, K, U)
}

// anyU: v is made of one of the books.
func anyU(f *ssa.Function, v ssa.Value, U map[string]bool, d int) bool {
	from := map[ssa.Value]bool{}
	madeOf(v, from, 0)
	for w := range from {
		if U[recvLoad(f, w)] {
			return true
		}
		if in, ok := w.(ssa.Instruction); ok && d < 3 {
			if g := sameRecvCall(f, in); g != nil {
				for _, b := range g.Blocks {
					for _, i := range b.Instrs {
						if may(g, i, func(e bookEv) bool { return e.read && U[e.field] }, 1) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (k *enumer) commits(x *collector, K string, U map[string]bool) {
	p, c := k.p, k.c
	com := x.m["Commit"]
	key := x.name + ".Commit writes " + K
	// the function that writes the result (Commit or a method it calls)
	var f *ssa.Function
	var walk func(g *ssa.Function, d int)
	walk = func(g *ssa.Function, d int) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ev, ok := bookEvent(g, in); ok && ev.field == K && ev.write != "" && f == nil {
					f = g
				}
				if h := sameRecvCall(g, in); h != nil && d < 3 {
					walk(h, d+1)
				}
			}
		}
	}
	walk(com, 0)
	if f == nil {
		c.Bad("books", key, p.pos(com.Pos()), "the models are forgotten without being committed")
		return
	}
	if f != com {
		if hit := avoids(com, nil, func(in ssa.Instruction) bool { return sameRecvCall(com, in) == f }, isReturn); hit != nil {
			k.opened("%s: not on every path", key)
			return
		}
	}
	write := func(in ssa.Instruction) bool {
		ev, ok := bookEvent(f, in)
		return ok && ev.field == K && ev.write != ""
	}
	// loops over the books: their head counts as the write, each turn has to write
	heads := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		from := map[ssa.Value]bool{}
		madeOf(iff.Cond, from, 0)
		over := false
		for v := range from {
			if cl, ok := v.(*ssa.Call); ok {
				if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && anyU(f, cl.Call.Args[0], U, 0) {
					over = true
				}
			}
		}
		if !over {
			continue
		}
		// a loop
		body := b.Succs[0]
		back := false
		for _, q := range b.Preds {
			back = back || body.Dominates(q)
		}
		if back {
			heads[b] = true
			if has := loopHas(body, b, write); has {
				hit := avoidsBlock(body, b, write)
				c.Cond(hit == nil, "books", key+" each turn", p.pos(iff.Cond.Pos()), "a model can be passed over")
			} else {
				delete(heads, b)
			}
		}
	}
	stop := func(in ssa.Instruction) bool {
		return write(in) || heads[in.Block()]
	}
	hit := avoids(f, nil, stop, isReturn)
	c.Cond(hit == nil, "books", key, p.pos(com.Pos()), "the models can be forgotten without being committed")
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if !write(in) {
				continue
			}
			ev, _ := bookEvent(f, in)
			from := map[ssa.Value]bool{}
			madeOf(ev.val, from, 0)
			old := false
			for v := range from {
				if recvLoad(f, v) == K {
					old = true
				}
			}
			c.Cond(old, "books", key+" on top", p.pos(in.Pos()), "what was committed before is lost")
			if cl, ok := ev.val.(*ssa.Call); ok && isNamed(deref(cl.Type()), "bdd", "BDD") {
				switch n := methodName(cl); n {
				case "And", "Implies", "ImpliedBy", "Equivalence", "Negate":
					c.Bad("books", key+" as disjunction", p.pos(in.Pos()), "the models are not joined by a disjunction but by "+n)
				case "Or":
					c.Ok("books", key+" as disjunction", p.pos(in.Pos()))
				}
			}
			c.Cond(anyU(f, ev.val, U, 0), "books", key+" from the books", p.pos(in.Pos()), "what is committed is not made of the models that were added")
		}
	}
}

func loopHas(from, head *ssa.BasicBlock, is func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{head: true}
	work := []*ssa.BasicBlock{from}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if is(in) {
				return true
			}
		}
		if head.Dominates(b) {
			work = append(work, b.Succs...)
		}
	}
	return false
}

// avoidsBlock: from the start of a block one gets to the block goal without stop.
func avoidsBlock(from, goal *ssa.BasicBlock, stop func(ssa.Instruction) bool) *ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{from}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == goal {
			return b
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		stopped := false
		for _, in := range b.Instrs {
			if stop(in) {
				stopped = true
				break
			}
		}
		if !stopped {
			work = append(work, b.Succs...)
		}
	}
	return nil
}

// returned: the models a rollback returns are those of the books.
func (k *enumer) returned(x *collector, U map[string]bool) {
	p, c := k.p, k.c
	f := x.m["RollbackAndReturnModels"]
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok || len(r.Results) == 0 {
				continue
			}
			if kc, ok := r.Results[0].(*ssa.Const); ok && kc.IsNil() {
				continue
			}
			c.Cond(anyU(f, r.Results[0], U, 0), "books", x.name+".RollbackAndReturnModels returns the models", p.pos(r.Pos()), "what is returned is not made of the models that were added")
		}
	}
}

// bigTerm is the value of a big number as a polynomial text; mutated receivers
// are not followed.
func (k *enumer) bigTerm(f *ssa.Function, v ssa.Value, leaf func(ssa.Value) string, d int) string {
	if d > 12 {
		return "?"
	}
	if l := leaf(v); l != "" {
		return l
	}
	t := func(v ssa.Value) string { return k.bigTerm(f, v, leaf, d+1) }
	bin := func(op, a, b string) string {
		if a == "?" || b == "?" {
			return "?"
		}
		if op == "*" || op == "+" {
			if b < a {
				a, b = b, a
			}
		}
		return "(" + a + op + b + ")"
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			return x.Value.ExactString()
		}
	case *ssa.Convert:
		return t(x.X)
	case *ssa.ChangeType:
		return t(x.X)
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD, token.SUB, token.MUL:
			return bin(x.Op.String(), t(x.X), t(x.Y))
		case token.SHL:
			if a := t(x.X); a == "1" {
				return bin("^", "2", t(x.Y))
			}
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			if s := soleStore(al); s != nil {
				return t(s)
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return "len(" + t(x.Call.Args[0]) + ")"
		}
		g := staticCallee(&x.Call)
		if g == nil || pkgOf(g) == nil {
			return "?"
		}
		a := x.Call.Args
		if pkgOf(g).Path() == "math/big" {
			switch g.Name() {
			case "NewInt":
				return t(a[0])
			case "SetInt64", "SetUint64", "Set":
				return t(a[1])
			case "Mul":
				return bin("*", t(a[1]), t(a[2]))
			case "Add":
				return bin("+", t(a[1]), t(a[2]))
			case "Sub":
				return bin("-", t(a[1]), t(a[2]))
			case "Exp":
				if kc, ok := a[3].(*ssa.Const); ok && kc.IsNil() {
					return bin("^", t(a[1]), t(a[2]))
				}
			case "Lsh":
				return bin("*", t(a[1]), bin("^", "2", t(a[2])))
			}
			return "?"
		}
		if g.Name() == "Size" && len(a) == 1 {
			s := t(a[0])
			if s == "?" {
				return "?"
			}
			return "size(" + s + ")"
		}
		// a function of the module with one return
		h := canonOf(g)
		if inModule(h) && len(h.Blocks) == 1 && len(h.Params) == len(a) {
			if r, ok := h.Blocks[0].Instrs[len(h.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				return k.bigTerm(h, r.Results[0], func(w ssa.Value) string {
					for i, q := range h.Params {
						if w == ssa.Value(q) {
							return t(a[i])
						}
					}
					return ""
				}, d+1)
			}
		}
	case *ssa.Phi:
		// all the same
		s := ""
		for _, e := range x.Edges {
			u := t(e)
			if s != "" && u != s {
				return "?"
			}
			s = u
		}
		return s
	}
	return "?"
}

func (k *enumer) dontCares(x *collector, K string, U map[string]bool) {
	p, c := k.p, k.c
	// a result that is a decision diagram holds the variables itself
	com := x.m["Commit"]
	rt := x.m["Result"].Signature.Results().At(0).Type()
	if isNamed(deref(rt), "bdd", "BDD") {
		return
	}
	// the constructor: a function with three variable sets that builds the type
	var ctor *ssa.Function
	for _, f := range p.Funcs {
		n := 0
		for _, q := range f.Params {
			if isVarSetT(q.Type()) {
				n++
			}
		}
		if n != 3 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && types.Identical(deref(al.Type()), deref(com.Params[0].Type())) {
					ctor = f
				}
			}
		}
	}
	if ctor == nil {
		k.opened("%s: constructor not found", x.name)
		return
	}
	var dc ssa.Value
	n := 0
	for _, q := range ctor.Params {
		if isVarSetT(q.Type()) {
			n++
			if n == 2 {
				dc = q
			}
		}
	}
	// fields made of the don't care variables
	D := map[string]ssa.Value{}
	for _, b := range ctor.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !types.Identical(deref(fa.X.Type()), deref(com.Params[0].Type())) {
				continue
			}
			from := map[ssa.Value]bool{}
			madeOf(st.Val, from, 0)
			if from[dc] {
				D[fieldName(deref(fa.X.Type()), fa.Field)] = st.Val
			}
		}
	}
	isD := map[string]bool{}
	for d := range D {
		isD[d] = true
	}
	used := anyMay(com, func(e bookEv) bool { return e.read && isD[e.field] })
	key := x.name + ".Commit uses the variables not on the solver"
	if used == nil {
		if anyMay(x.m["AddModel"], func(e bookEv) bool { return e.read && isD[e.field] }) == nil || len(isD) == 0 || isNamed(deref(rt), "math/big", "Int") {
			c.Bad("care", key, p.pos(com.Pos()), "the variables that are not on the solver are left out of what is committed")
			return
		}
		if len(D) > 0 {
			c.Bad("care", key, p.pos(com.Pos()), "the variables that are not on the solver are left out of what is committed")
			return
		}
	}
	c.Ok("care", key, p.pos(com.Pos()))
	for _, d := range sortedKeys(D) {
		v := D[d]
		if strings.Contains(v.Type().String(), "big.Int") {
			got := k.bigTerm(ctor, v, func(w ssa.Value) string {
				if w == dc {
					return "vars"
				}
				return ""
			}, 0)
			if strings.Contains(got, "?") {
				k.opened("%s: the factor %s is not followed", x.name, d)
				continue
			}
			c.Cond(got == "(2^size(vars))", "care", x.name+" factor "+d, p.pos(v.Pos()), "the factor for the variables not on the solver is "+got)
			// K + len(U) * factor
			for _, b := range com.Blocks {
				for _, in := range b.Instrs {
					ev, ok := bookEvent(com, in)
					if !ok || ev.field != K || ev.write == "" {
						continue
					}
					got := k.bigTerm(com, ev.val, func(w ssa.Value) string {
						switch n := recvLoad(com, w); {
						case n == "":
							return ""
						case n == K:
							return "K"
						case isD[n]:
							return "F"
						case U[n]:
							return "U"
						default:
							return n
						}
					}, 0)
					if strings.Contains(got, "?") {
						k.opened("%s: what is committed is not followed", x.name)
						continue
					}
					c.Cond(got == "((F*len(U))+K)" || got == "((len(U)*F)+K)", "care", x.name+" commits", p.pos(in.Pos()), "the count that is committed is "+got)
				}
			}
			continue
		}
		k.product(x, d, v, dc)
		k.expanded(x, d, U)
	}
}

// expanded: a model that is committed is made of a model of the books and an
// extension, each with each.
func (k *enumer) expanded(x *collector, d string, U map[string]bool) {
	p, c := k.p, k.c
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		var exts, books []ssa.Instruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g := sameRecvCall(f, in); g != nil {
					walk(g)
				}
				sl, ok := in.(*ssa.Slice)
				if ok && recvLoad(f, sl.X) == d && (sl.Low != nil || sl.High != nil) {
					c.Bad("care", x.name+" part of "+d, p.pos(sl.Pos()), "only a part of the extensions is used")
				}
				if ia, ok := in.(*ssa.IndexAddr); ok {
					switch n := recvLoad(f, ia.X); {
					case n == d:
						exts = append(exts, in)
					case U[n]:
						books = append(books, in)
					}
				}
			}
		}
		if len(exts) != 1 || len(books) != 1 {
			return
		}
		// the models that are made
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(*ssa.Call)
				if !ok || !isNamed(deref(cl.Type()), "model", "Model") || staticCallee(&cl.Call) == nil {
					continue
				}
				from := map[ssa.Value]bool{}
				for _, a := range cl.Call.Args {
					madeOf(a, from, 0)
				}
				e, u := from[exts[0].(ssa.Value)], from[books[0].(ssa.Value)]
				if !e && !u {
					continue
				}
				why := ""
				if !e {
					why = "a model is made without the extension to the variables not on the solver"
				} else if !u {
					why = "a model is made without the model of the solver"
				}
				c.Cond(why == "", "care", x.name+" expanded model", p.pos(cl.Pos()), why)
				inner := books[0]
				if books[0].Block().Dominates(exts[0].Block()) {
					inner = exts[0]
				}
				hit := avoids(f, inner, func(i ssa.Instruction) bool { return i == in }, func(i ssa.Instruction) bool { return i == inner })
				c.Cond(hit == nil, "care", x.name+" each extension of each model", p.pos(cl.Pos()), "a model can be passed over")
			}
		}
	}
	walk(x.m["Commit"])
}

// product: a function that extends what it has by both phases of each variable.
func (k *enumer) product(x *collector, d string, v, dc ssa.Value) {
	p, c := k.p, k.c
	cl, ok := v.(*ssa.Call)
	if !ok {
		k.opened("%s: %s is not followed", x.name, d)
		return
	}
	g := staticCallee(&cl.Call)
	if g == nil || len(canonOf(g).Blocks) == 0 {
		return
	}
	g = canonOf(g)
	var pos, neg []ssa.Instruction
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			q, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			n := methodName(q)
			switch {
			case n == "AsLiteral":
				pos = append(pos, in)
			case n == "Negate" && len(q.Call.Args) > 0 && isNamed(q.Call.Args[0].Type(), "formula", "Variable"):
				neg = append(neg, in)
			}
		}
	}
	key := x.name + " " + d + " both phases"
	if len(pos)+len(neg) == 0 {
		k.opened("%s: the literals are not made in %s", key, shortFn(g))
		return
	}
	if len(pos) == 0 || len(neg) == 0 {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if cv, ok := in.(*ssa.Convert); ok && isNamed(cv.Type(), "formula", "Literal") {
					k.opened("%s: a literal is converted", key)
					return
				}
				if cv, ok := in.(*ssa.ChangeType); ok && isNamed(cv.Type(), "formula", "Literal") {
					k.opened("%s: a literal is converted", key)
					return
				}
				if q, ok := in.(*ssa.Call); ok {
					if h := staticCallee(&q.Call); h != nil && inModule(h) && isNamed(q.Type(), "formula", "Literal") && methodName(q) != "AsLiteral" && methodName(q) != "Negate" {
						k.opened("%s: a literal is made elsewhere", key)
						return
					}
				}
			}
		}
		c.Bad("care", key, p.pos(g.Pos()), "the variables not on the solver get one phase only")
		return
	}
	ok = true
	for _, a := range pos {
		t := false
		for _, b := range neg {
			t = t || together(a, b)
		}
		ok = ok && t
	}
	if len(pos) != len(neg) {
		k.opened("%s: not one literal of each phase", key)
		return
	}
	c.Cond(ok, "care", key, p.pos(g.Pos()), "the two phases of a variable are not made together")
}

// ---------------------------------------------------------------- counting

func (k *enumer) counting() {
	p, c := k.p, k.c
	var comp *ssa.Function // multiplies the counts of the components
	for _, f := range p.Funcs {
		if pkgOf(f) == nil || shortPkg(pkgOf(f)) != "model/count" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(*ssa.Call); ok && methodName(cl) == "ModelCount" {
					comp = f
					k.components(f, cl)
				}
				if cl, ok := in.(*ssa.Call); ok && methodName(cl) == "Sort" {
					k.droppedFormulas(f)
				}
			}
		}
	}
	if comp == nil {
		k.opened("no function multiplies the counts of components")
	}
	for _, f := range p.Funcs {
		if pkgOf(f) == nil || shortPkg(pkgOf(f)) != "model/count" || f.Name() == "init" {
			continue
		}
		calls := false
		for _, ci := range callsIn(f) {
			if g := staticCallee(ci.Common()); g != nil && canonOf(g) == comp && f != comp {
				calls = true
			}
		}
		if calls {
			k.totals(f, comp)
		}
		// what is left out when formulas are counted
		if r := f.Signature.Results(); r.Len() == 1 && isVarSetT(r.At(0).Type()) && len(f.Params) == 2 {
			k.leftOut(f)
		}
	}
	_ = c
}

func (k *enumer) components(f *ssa.Function, mc *ssa.Call) {
	p, c := k.p, k.c
	key := "product in " + shortFn(f)
	// every ModelCount is multiplied
	var mul *ssa.Call
	for _, r := range *mc.Referrers() {
		if cl, ok := r.(*ssa.Call); ok && pkgOf(staticCallee(&cl.Call)) != nil && pkgOf(staticCallee(&cl.Call)).Path() == "math/big" {
			mul = cl
		}
	}
	if mul == nil {
		k.opened("%s: not followed", key)
		return
	}
	if methodName(mul) != "Mul" {
		c.Bad("count", key, p.pos(mul.Pos()), "the counts of the components are not multiplied")
		return
	}
	// the other factor is the product so far, which starts with one
	var acc ssa.Value
	for _, a := range mul.Call.Args[1:] {
		if a != ssa.Value(mc) {
			acc = a
		}
	}
	starts := map[string]bool{}
	self := false
	var roots func(v ssa.Value, seen map[ssa.Value]bool)
	roots = func(v ssa.Value, seen map[ssa.Value]bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				roots(e, seen)
			}
		case *ssa.Call:
			if x == mul {
				self = true
				return
			}
			if methodName(x) == "NewInt" && pkgOf(staticCallee(&x.Call)).Path() == "math/big" {
				if n, ok := intConst(x.Call.Args[0]); ok {
					starts[fmt.Sprint(n)] = true
					// changed in place
					if mul.Call.Args[0] == ssa.Value(x) {
						self = true
					}
					return
				}
			}
			starts["?"] = true
		default:
			starts["?"] = true
		}
	}
	if acc == nil {
		k.opened("%s: not followed", key)
		return
	}
	roots(acc, map[ssa.Value]bool{})
	if starts["?"] {
		k.opened("%s: start not followed", key)
		return
	}
	c.Cond(self && len(starts) == 1 && starts["1"], "count", key, p.pos(mul.Pos()), "the product does not start with one or does not keep the components before")
	// every component
	hit := avoids(f, mc, func(in ssa.Instruction) bool { return in == ssa.Instruction(mul) }, func(in ssa.Instruction) bool { return in == ssa.Instruction(mc) })
	c.Cond(hit == nil, "count", key+" each component", p.pos(mc.Pos()), "a component can be passed over")
	// a turn of the loop counts its component
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			el := deref(ia.Type())
			if sl, ok := el.Underlying().(*types.Slice); ok && isFormulaType(sl.Elem()) {
				h := avoids(f, ia, func(i ssa.Instruction) bool { return i == ssa.Instruction(mc) }, func(i ssa.Instruction) bool { return i == ssa.Instruction(ia) })
				c.Cond(h == nil, "count", key+" each turn", p.pos(ia.Pos()), "a component can be passed over")
			}
		}
	}
}

// droppedFormulas: only true formulas are left out when simplifying.
func (k *enumer) droppedFormulas(f *ssa.Function) {
	p, c := k.p, k.c
	var apps []*ssa.Call
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(*ssa.Call); ok {
				if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					if sl, ok := cl.Type().Underlying().(*types.Slice); ok && isFormulaType(sl.Elem()) {
						apps = append(apps, cl)
					}
				}
			}
		}
	}
	if len(apps) != 1 {
		return
	}
	els := varargs(apps[0].Call.Args[1])
	if len(els) != 1 {
		return
	}
	el := els[0]
	key0 := "kept in " + shortFn(f)
	done := false
	for n, s := range enumValues(p, "formula", "FSort") {
		if !strings.HasPrefix(n, "Sort") {
			continue
		}
		v := constant.MakeInt64(s)
		sc := &sccp{p: p, maxD: 1, Fix: func(w ssa.Value) (cval, bool) {
			if cl, ok := w.(*ssa.Call); ok && methodName(cl) == "Sort" && len(cl.Call.Args) > 0 && cl.Call.Args[0] == el {
				return cval{v: v}, true
			}
			return cBottom, false
		}}
		r := sc.Run(f, selfArgs(f))
		def, ok := el.(ssa.Instruction)
		if !ok || !r.Reach[def.Block()] {
			continue
		}
		done = true
		if n == "SortTrue" {
			continue
		}
		kept := always(r, def, func(in ssa.Instruction) bool { return in == ssa.Instruction(apps[0]) })
		c.Cond(kept, "count", key0+" "+n, p.pos(apps[0].Pos()), "a formula of this sort is left out of the count")
	}
	if !done {
		k.opened("%s: not followed", key0)
	}
}

// leftOut: the variables that are free are those of neither the simplified
// formulas nor the backbone.
func (k *enumer) leftOut(f *ssa.Function) {
	p, c := k.p, k.c
	key := "free variables in " + shortFn(f)
	var fields []string
	seen := map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			cl, ok := in.(*ssa.Call)
			if !ok || !strings.HasPrefix(methodName(cl), "Remove") {
				continue
			}
			from := map[ssa.Value]bool{}
			for _, a := range cl.Call.Args[1:] {
				madeOf(a, from, 0)
			}
			for v := range from {
				if fa, ok := v.(*ssa.FieldAddr); ok {
					seen[fieldName(deref(fa.X.Type()), fa.Field)] = true
				}
			}
		}
	}
	if len(seen) == 0 {
		return
	}
	st := structOf(deref(f.Params[0].Type()))
	if st == nil {
		return
	}
	var missing []string
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		sl, ok := fl.Type().Underlying().(*types.Slice)
		if !ok || !isFormulaType(sl.Elem()) && !isNamed(sl.Elem(), "formula", "Variable") {
			continue
		}
		fields = append(fields, fl.Name())
		if !seen[fl.Name()] {
			missing = append(missing, fl.Name())
		}
	}
	if len(fields) < 2 {
		return
	}
	c.Cond(len(missing) == 0, "count", key, p.pos(f.Pos()), "the variables of "+strings.Join(missing, ", ")+" are taken as free")
}

// totals: the result is the count times two for each free variable.
func (k *enumer) totals(f, comp *ssa.Function) {
	p, c := k.p, k.c
	key := "result of " + shortFn(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			for _, v := range r.Results {
				if !strings.Contains(v.Type().String(), "big.Int") {
					continue
				}
				if kc, ok := v.(*ssa.Const); ok && kc.IsNil() {
					continue
				}
				got := k.bigTerm(f, v, func(w ssa.Value) string {
					if ex, ok := w.(*ssa.Extract); ok && ex.Index == 0 {
						if cl, ok := ex.Tuple.(*ssa.Call); ok {
							if g := staticCallee(&cl.Call); g != nil && canonOf(g) == comp {
								return "C"
							}
						}
					}
					if isVarSetT(w.Type()) {
						if cl, ok := w.(*ssa.Call); ok {
							if g := staticCallee(&cl.Call); g != nil && shortPkg(pkgOf(g)) == "model/count" {
								return "free"
							}
						}
						return "set"
					}
					return ""
				}, 0)
				switch {
				case strings.Contains(got, "?"):
					k.opened("%s: not followed", key)
				case got == "0" || got == "1":
					k.trivial(f, r, got)
				case !strings.Contains(got, "C"):
					c.Bad("count", key, p.pos(r.Pos()), "the result is "+got)
				default:
					c.Cond(got == "((2^size(free))*C)" || got == "(C*(2^size(free)))", "count", key, p.pos(r.Pos()), "the result is "+got+", not the count of the components times two for each free variable")
				}
			}
		}
	}
}

// trivial: without variables there is one model if all formulas are true, none
// otherwise.
func (k *enumer) trivial(f *ssa.Function, ret *ssa.Return, got string) {
	p, c := k.p, k.c
	run := func(v int64) *sccpResult {
		s := &sccp{p: p, maxD: 1, Fix: func(w ssa.Value) (cval, bool) {
			if cl, ok := w.(*ssa.Call); ok && methodName(cl) == "Sort" {
				return cval{v: constant.MakeInt64(v)}, true
			}
			return cBottom, false
		}}
		return s.Run(f, selfArgs(f))
	}
	sorts := enumValues(p, "formula", "FSort")
	if got == "0" {
		r := run(sorts["SortTrue"])
		c.Cond(!r.Reach[ret.Block()], "count", "no variables, all true in "+shortFn(f), p.pos(ret.Pos()), "true formulas without variables get no model")
		return
	}
	// from the body of the loop with a false formula one never gets to one
	r := run(sorts["SortFalse"])
	var at ssa.Instruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(*ssa.Call); ok && methodName(cl) == "Sort" && r.Reach[b] {
				at = in
			}
		}
	}
	if at == nil {
		return
	}
	_ = at
	r2 := run(sorts["SortFalse"])
	zero := false
	for _, b := range f.Blocks {
		if !r2.Reach[b] {
			continue
		}
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.Return); ok && len(x.Results) > 0 {
				if cl, ok := x.Results[0].(*ssa.Call); ok && methodName(cl) == "NewInt" {
					if n, ok := intConst(cl.Call.Args[0]); ok && n == 0 {
						zero = true
					}
				}
			}
		}
	}
	c.Cond(zero, "count", "no variables, not true in "+shortFn(f), p.pos(ret.Pos()), "formulas that are not true and have no variables get a model")
}

// ---------------------------------------------------------------- DNNF

func (k *enumer) dnnfCount() {
	p, c := k.p, k.c
	sorts := enumValues(p, "formula", "FSort")
	var fn *ssa.Function // the recursive count
	for _, f := range p.Funcs {
		if pkgOf(f) == nil || shortPkg(pkgOf(f)) != "dnnf" || f.Signature.Results().Len() != 1 || !strings.Contains(f.Signature.Results().At(0).Type().String(), "big.Int") {
			continue
		}
		for _, ci := range callsIn(f) {
			if g := staticCallee(ci.Common()); g != nil && canonOf(g) == f {
				fn = f
			}
		}
	}
	if fn == nil {
		k.opened("no recursive count of a DNNF found")
		return
	}
	var arg ssa.Value
	for _, q := range fn.Params {
		if isFormulaType(q.Type()) {
			arg = q
		}
	}
	want := map[string]struct{ start, upd string }{
		"SortTrue":    {"1", ""},
		"SortLiteral": {"1", ""},
		"SortFalse":   {"0", ""},
		"SortAnd":     {"1", "(A*R)"},
		"SortOr":      {"0", "((R*(2^(size(vars(all))-size(vars(op)))))+A)"},
	}
	for _, n := range sortedKeys(want) {
		s := &sccp{p: p, maxD: 1, Fix: func(w ssa.Value) (cval, bool) {
			if cl, ok := w.(*ssa.Call); ok && methodName(cl) == "Sort" && len(cl.Call.Args) > 0 && cl.Call.Args[0] == arg {
				return cInt(int(sorts[n])), true
			}
			return cBottom, false
		}}
		r := s.Run(fn, selfArgs(fn))
		key := shortFn(fn) + " " + n
		var rec *ssa.Call
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(*ssa.Call); ok && r.Reach[b] {
					if g := staticCallee(&cl.Call); g != nil && canonOf(g) == fn {
						rec = cl
					}
				}
			}
		}
		// accumulators: numbers made from a constant that reach the return
		starts := map[string]bool{}
		var accs []*ssa.Call
		var roots func(v ssa.Value, seen map[ssa.Value]bool)
		roots = func(v ssa.Value, seen map[ssa.Value]bool) {
			if seen[v] {
				return
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Phi:
				for i, e := range x.Edges {
					if r.Edges[[2]*ssa.BasicBlock{x.Block().Preds[i], x.Block()}] {
						roots(e, seen)
					}
				}
			case *ssa.Const:
				// the value before a switch that covers this sort
				if !x.IsNil() {
					starts["?"] = true
				} else {
					starts["nil"] = true
				}
			case *ssa.Call:
				g := staticCallee(&x.Call)
				if g != nil && pkgOf(g) != nil && pkgOf(g).Path() == "math/big" {
					switch {
					case g.Name() == "NewInt":
						if m, ok := intConst(x.Call.Args[0]); ok {
							starts[fmt.Sprint(m)] = true
							accs = append(accs, x)
							return
						}
					case g.Name() == "Set":
						// a copy (of the cached value, of the result)
						from := map[ssa.Value]bool{}
						madeOf(x.Call.Args[1], from, 0)
						for w := range from {
							if ta, ok := w.(*ssa.TypeAssert); ok {
								_ = ta
								return
							}
						}
						roots(x.Call.Args[1], seen)
						return
					case bigMutator[g.Name()]:
						// new value of an accumulator
						for _, a := range x.Call.Args[1:] {
							if ph, ok := a.(*ssa.Phi); ok {
								roots(ph, seen)
							}
						}
						accs = append(accs, x)
						return
					}
				}
				starts["?"] = true
			default:
				starts["?"] = true
			}
		}
		for _, b := range fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && r.Reach[b] && len(ret.Results) == 1 {
				roots(ret.Results[0], map[ssa.Value]bool{})
			}
		}
		if starts["?"] || len(starts) == 0 {
			k.opened("%s: start not followed", key)
			continue
		}
		c.Cond(len(starts) == 1 && starts[want[n].start], "count", key+" starts", p.pos(fn.Pos()), "the count starts with "+strings.Join(sortedKeys(starts), ","))
		isAcc := func(v ssa.Value) bool {
			for _, a := range accs {
				if v == ssa.Value(a) {
					return true
				}
			}
			if ph, ok := v.(*ssa.Phi); ok && ph.Type().String() == "*math/big.Int" {
				return true
			}
			return false
		}
		var upds []string
		var updAt ssa.Instruction
		for _, b := range fn.Blocks {
			if !r.Reach[b] {
				continue
			}
			for _, in := range b.Instrs {
				cl, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := staticCallee(&cl.Call)
				if g == nil || pkgOf(g) == nil || pkgOf(g).Path() != "math/big" || !bigMutator[g.Name()] || len(cl.Call.Args) < 3 {
					continue
				}
				acc := false
				for _, a := range cl.Call.Args[1:] {
					acc = acc || isAcc(a)
				}
				if !acc {
					continue
				}
				updAt = in
				upds = append(upds, k.bigTerm(fn, cl, func(w ssa.Value) string {
					switch {
					case isAcc(w) && w != ssa.Value(cl):
						return "A"
					case rec != nil && w == ssa.Value(rec):
						return "R"
					case isVarSetT(w.Type()):
						from := map[ssa.Value]bool{}
						madeOf(w, from, 0)
						for v := range from {
							if ia, ok := v.(*ssa.IndexAddr); ok && isFormulaType(deref(ia.Type())) && !isAllocArr(ia) {
								return "vars(op)"
							}
						}
						if from[arg] {
							return "vars(all)"
						}
					}
					return ""
				}, 0))
			}
		}
		sort.Strings(upds)
		got := strings.Join(upds, " ")
		if strings.Contains(got, "?") {
			k.opened("%s: %s not followed", key, got)
			continue
		}
		okU := got == want[n].upd || n == "SortOr" && got == "(((2^(size(vars(all))-size(vars(op))))*R)+A)" || n == "SortOr" && got == "(A+(R*(2^(size(vars(all))-size(vars(op))))))" || n == "SortOr" && got == "(A+((2^(size(vars(all))-size(vars(op))))*R))"
		c.Cond(okU, "count", key+" adds up", p.pos(fn.Pos()), "the count is changed by "+got+", not by "+want[n].upd)
		if rec != nil && updAt != nil && okU {
			ia := operandOf(rec)
			if ia != nil {
				hit := avoids(fn, ia, func(in ssa.Instruction) bool { return in == updAt }, func(in ssa.Instruction) bool { return in == ssa.Instruction(ia) })
				c.Cond(hit == nil, "count", key+" each operand", p.pos(rec.Pos()), "an operand can be passed over")
			}
		}
	}
	k.originals(fn)
}

func isAllocArr(ia *ssa.IndexAddr) bool {
	_, ok := ia.X.(*ssa.Alloc)
	return ok
}

func operandOf(rec *ssa.Call) *ssa.IndexAddr {
	from := map[ssa.Value]bool{}
	for _, a := range rec.Call.Args {
		if isFormulaType(a.Type()) {
			madeOf(a, from, 0)
		}
	}
	for v := range from {
		if ia, ok := v.(*ssa.IndexAddr); ok {
			return ia
		}
	}
	return nil
}

// originals: the variables of the original formula that are not in the DNNF
// count twice.
func (k *enumer) originals(rec *ssa.Function) {
	p, c := k.p, k.c
	f := p.Func("dnnf", "DNNF.ModelCount")
	if f == nil {
		k.opened("DNNF.ModelCount not found")
		return
	}
	run := func(contains bool) (*sccpResult, *ssa.Call) {
		var exp *ssa.Call
		s := &sccp{p: p, maxD: 1, Fix: func(w ssa.Value) (cval, bool) {
			if cl, ok := w.(*ssa.Call); ok && methodName(cl) == "Contains" && len(cl.Call.Args) > 0 && isVarSetT(cl.Call.Args[0].Type()) {
				return cval{v: constant.MakeBool(contains)}, true
			}
			return cBottom, false
		}}
		r := s.Run(f, selfArgs(f))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(*ssa.Call); ok && methodName(cl) == "Exp" {
					exp = cl
				}
			}
		}
		return r, exp
	}
	// every result has the factor
	grown := func(in ssa.Instruction) bool {
		cl, ok := in.(*ssa.Call)
		if !ok || methodName(cl) != "Mul" && methodName(cl) != "Lsh" {
			return false
		}
		g := staticCallee(&cl.Call)
		return g != nil && pkgOf(g) != nil && pkgOf(g).Path() == "math/big"
	}
	scaled := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			scaled = scaled || grown(in)
		}
	}
	if scaled {
		hit := avoids(f, nil, grown, isReturn)
		c.Cond(hit == nil, "count", shortFn(f)+" factor on every path", p.pos(f.Pos()), "a count can be returned without the factor for the variables left out")
	}
	var con ssa.Instruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(*ssa.Call); ok && methodName(cl) == "Contains" {
				con = in
			}
		}
	}
	r, exp := run(true)
	if exp == nil || con == nil {
		k.opened("%s: the factor for variables left out is not followed", shortFn(f))
		return
	}
	num := func(r *sccpResult) (int, bool) {
		n, ok := exp.Call.Args[2].(*ssa.Call)
		if !ok || methodName(n) != "NewInt" {
			return 0, false
		}
		return r.get(n.Call.Args[0]).Int()
	}
	if base, ok := exp.Call.Args[1].(*ssa.Call); ok && methodName(base) == "NewInt" {
		if n, ok := intConst(base.Call.Args[0]); ok {
			c.Cond(n == 2, "count", shortFn(f)+" factor", p.pos(exp.Pos()), fmt.Sprintf("a variable left out counts %d times", n))
		}
	}
	n, ok := num(r)
	c.Cond(ok && n == 0, "count", shortFn(f)+" variables of the DNNF", p.pos(exp.Pos()), "variables of the DNNF are taken as left out")
	r, _ = run(false)
	n, ok = num(r)
	c.Cond(!ok, "count", shortFn(f)+" variables left out", p.pos(exp.Pos()), "variables that are not in the DNNF are not counted")
	inc := func(in ssa.Instruction) bool {
		b, ok := in.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		from := map[ssa.Value]bool{}
		madeOf(exp.Call.Args[2], from, 0)
		m, ok := intConst(b.Y)
		return ok && m == 1 && from[b]
	}
	c.Cond(always(r, con, inc), "count", shortFn(f)+" each variable left out", p.pos(con.Pos()), "a variable that is not in the DNNF is not counted")
}

// ---------------------------------------------------------------- canonical

func (k *enumer) canonicalForms() {
	p, c := k.p, k.c
	for _, want := range []struct {
		name string
		cnf  bool
	}{{"CanonicalCNF", true}, {"CanonicalDNF", false}, {"CanonicalCNFWithHandler", true}, {"CanonicalDNFWithHandler", false}} {
		f := p.Func("model/enum", want.name)
		if f == nil {
			k.opened("%s not found", want.name)
			continue
		}
		var made []string
		negated, plain, neglit, litOp := false, false, false, false
		s := &sccp{p: p, maxD: 4}
		w := &reachWalk{s: s}
		w.on = func(g *ssa.Function, ci ssa.CallInstruction, args []cval, r *sccpResult) bool {
			cl, ok := ci.(*ssa.Call)
			if !ok {
				return false
			}
			switch n := methodName(cl); n {
			case "Clause", "Minterm", "And", "Or":
				if cl.Call.IsInvoke() || isFactoryType(recvType(staticCallee(&cl.Call))) {
					made = append(made, n)
				}
			case "Constant", "Verum", "Falsum":
				if cl.Call.IsInvoke() || isFactoryType(recvType(staticCallee(&cl.Call))) {
					v := n == "Verum"
					if n == "Constant" {
						a := args[len(args)-1]
						if a.v == nil || a.v.Kind() != constant.Bool {
							break
						}
						v = constant.BoolVal(a.v)
					}
					c.Cond(v == want.cnf, "canonical", want.name+" without models", p.pos(cl.Pos()), fmt.Sprintf("without models the result is %v", v))
				}
			case "Negate":
				if len(cl.Call.Args) > 0 && isNamed(cl.Call.Args[0].Type(), "formula", "Literal") {
					neglit = true
				}
			case "Add":
				if h := staticCallee(&cl.Call); h != nil && isNamed(deref(recvType(h)), "sat", "Solver") {
					litOp = true
					from := map[ssa.Value]bool{}
					for _, a := range cl.Call.Args[1:] {
						madeOf(a, from, 0)
					}
					neg, known := false, true
					for v := range from {
						if q, ok := v.(*ssa.Call); ok && methodName(q) == "Negate" {
							neg = true
						}
						if ph, ok := v.(*ssa.Phi); ok {
							for i := range ph.Edges {
								if !r.Edges[[2]*ssa.BasicBlock{ph.Block().Preds[i], ph.Block()}] {
									known = false
								}
							}
						}
					}
					if !known {
						// one edge only is open
						neg = false
						for v := range from {
							if ph, ok := v.(*ssa.Phi); ok {
								for i, e := range ph.Edges {
									if r.Edges[[2]*ssa.BasicBlock{ph.Block().Preds[i], ph.Block()}] {
										if q, ok := e.(*ssa.Call); ok && methodName(q) == "Negate" {
											neg = true
										}
									}
								}
							}
						}
					}
					if neg {
						negated = true
					} else {
						plain = true
					}
				}
			}
			g2 := staticCallee(&cl.Call)
			return g2 != nil && pkgOf(g2) != nil && shortPkg(pkgOf(g2)) == "model/enum"
		}
		w.Run(f, selfArgs(f), 4)
		sort.Strings(made)
		if !litOp || len(made) == 0 {
			k.opened("%s: not followed", want.name)
			continue
		}
		got := strings.Join(dedup(made), " ")
		exp := "Minterm Or"
		if want.cnf {
			exp = "And Clause"
		}
		if strings.Contains(got, "And") && strings.Contains(got, "Or") {
			k.opened("%s: builds %s", want.name, got)
			continue
		}
		c.Cond(got == exp || got == "And Or", "canonical", want.name+" builds", p.pos(f.Pos()), "builds "+got+", not "+exp)
		c.Cond(neglit == want.cnf, "canonical", want.name+" literals", p.pos(f.Pos()), fmt.Sprintf("literals negated: %v", neglit))
		c.Cond(negated == want.cnf && plain == !want.cnf, "canonical", want.name+" formula", p.pos(f.Pos()), fmt.Sprintf("the formula is enumerated negated: %v, as it is: %v", negated, plain))
	}
}
