package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// interning: the node tables of the factory and the tables that find them.
func (k *caching) interning() {
	c, p := k.c, k.p
	for _, f := range p.Funcs {
		if shortPkg(pkgOf(f)) != "formula" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				nu, ok := in.(*ssa.MapUpdate)
				if !ok || structOf(nu.Value.Type()) == nil || isPtr(nu.Value.Type()) {
					continue
				}
				mk, ok := valueFieldKey(nu.Map, 0)
				if !ok && mk == "" {
					continue
				}
				for _, iu := range k.indexUpdates(f, nu) {
					k.interned(f, nu, iu, mk)
				}
			}
		}
	}
	// the tables are read for the kind of formula they were filled with
	made := map[string]map[string]bool{}
	for _, f := range p.Funcs {
		if shortPkg(pkgOf(f)) != "formula" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if nu, ok := in.(*ssa.MapUpdate); ok && structOf(nu.Value.Type()) != nil && !isPtr(nu.Value.Type()) {
					if s := encodedSort(nu.Key); s != "" {
						mk, _ := valueFieldKey(nu.Map, 0)
						if made[mk] == nil {
							made[mk] = map[string]bool{}
						}
						made[mk][s] = true
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		if shortPkg(pkgOf(f)) != "formula" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				lk, ok := in.(*ssa.Lookup)
				if !ok {
					continue
				}
				mk, _ := valueFieldKey(lk.X, 0)
				if made[mk] == nil {
					continue
				}
				s := k.sortAt(lk.Index, b)
				if s == "" {
					continue
				}
				c.Cond(made[mk][s], "interned", rel(f)+" reads "+mk, p.pos(lk.Pos()), "the table "+mk+" is read for formulas of a sort that is kept in another table")
			}
		}
	}
}

// encodedSort: the constant sort a formula was encoded with.
func encodedSort(v ssa.Value) string {
	call, ok := v.(*ssa.Call)
	if !ok || len(call.Call.Args) == 0 {
		return ""
	}
	if g := staticCallee(&call.Call); g == nil || !inModule(g) {
		return ""
	}
	cn, ok := call.Call.Args[0].(*ssa.Const)
	if !ok || !isNamed(cn.Type(), "formula", "FSort") || cn.Value == nil {
		return ""
	}
	return cn.Value.ExactString()
}

// sortAt: the sort the formula is known to have in the block.
func (k *caching) sortAt(v ssa.Value, b *ssa.BasicBlock) string {
	want := k.keyC(v)
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(d.Preds) != 1 {
			continue
		}
		ifi, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || id.Succs[0] != d {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL {
			continue
		}
		for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
			cn, ok := pr[1].(*ssa.Const)
			if !ok || cn.Value == nil || !isNamed(cn.Type(), "formula", "FSort") {
				continue
			}
			call, ok := pr[0].(*ssa.Call)
			if !ok || len(call.Call.Args) != 1 || k.keyC(call.Call.Args[0]) != want {
				continue
			}
			return cn.Value.ExactString()
		}
	}
	return ""
}

// indexUpdates: the entries under which the new formula is found again.
func (k *caching) indexUpdates(f *ssa.Function, nu *ssa.MapUpdate) []*ssa.MapUpdate {
	var out []*ssa.MapUpdate
	id := k.strip(nu.Key)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.MapUpdate)
			if !ok || u == nu {
				continue
			}
			if k.strip(u.Value) == id {
				out = append(out, u)
				continue
			}
			if call, ok := u.Value.(*ssa.Call); ok {
				if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && len(call.Call.Args) == 2 {
					for _, e := range appended(call) {
						if k.strip(e) == id {
							out = append(out, u)
						}
					}
				}
			}
		}
	}
	return out
}

// appended: the single values of append(s, a, b).
func appended(call *ssa.Call) []ssa.Value {
	sl, ok := call.Call.Args[1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

func (k *caching) interned(f *ssa.Function, nu, iu *ssa.MapUpdate, mk string) {
	c, p := k.c, k.p
	table, _ := valueFieldKey(iu.Map, 0)
	if table == "" {
		return
	}
	key := rel(f) + " " + table
	pos := p.pos(iu.Pos())
	parts := k.nodeParts(nu.Value)
	want := k.keyC(iu.Key)
	// searched with the same key
	found := false
	var finder *ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Lookup:
				t, _ := valueFieldKey(x.X, 0)
				if x.CommaOk && t == table && k.keyC(x.Index) == want && after(x, iu) {
					found = true
				}
			case *ssa.Call:
				g := staticCallee(&x.Call)
				if g == nil || !inModule(g) || !k.looksUp(canonOf(g), table) || !after(x, iu) {
					continue
				}
				okKey, okOps := false, false
				for _, a := range x.Call.Args {
					if k.keyC(a) == want {
						okKey = true
					}
					for _, q := range parts {
						if k.samePart(a, q) {
							okOps = true
						}
					}
					if ld, ok := nu.Value.(*ssa.UnOp); ok && ld.X == a {
						okOps = true
					}
				}
				if okKey && okOps {
					found = true
					finder = canonOf(g)
				}
			}
		}
	}
	c.Cond(found, "interned", key+" search", pos, "a new formula is entered under another key than the one that was searched")
	// the key says what the node says
	ok := false
	switch {
	case structOf(iu.Key.Type()) != nil:
		kp := k.nodeParts(iu.Key)
		ok = len(kp) == len(parts) && len(kp) > 0
		for i := range kp {
			if ok && k.keyC(kp[i]) != k.keyC(parts[i]) {
				ok = false
			}
		}
	default:
		for _, q := range parts {
			if k.keyC(q) == want {
				ok = true
			}
		}
		if call, isCall := iu.Key.(*ssa.Call); isCall {
			for _, a := range call.Call.Args {
				for _, q := range parts {
					if k.samePart(a, q) {
						ok = true
					}
				}
				if ld, isLd := nu.Value.(*ssa.UnOp); isLd && ld.X == a {
					ok = true
				}
			}
		}
	}
	c.Cond(ok, "interned", key+" parts", pos, "the operands kept for the formula are not the ones of the key it is found with")
	// everything is compared
	if finder != nil {
		k.compares(finder, structOf(nu.Value.Type()), nu.Value.Type())
		nodes, _ := valueFieldKey(nu.Map, 0)
		other := ""
		for _, b := range finder.Blocks {
			for _, in := range b.Instrs {
				if lk, isLk := in.(*ssa.Lookup); isLk {
					if m, isMap := lk.X.Type().Underlying().(*types.Map); isMap && types.Identical(m.Elem(), nu.Value.Type()) {
						if t, _ := valueFieldKey(lk.X, 0); t != "" && t != nodes && nodes != "" {
							other = t
						}
					}
				}
			}
		}
		c.Cond(other == "", "interned", rel(finder)+" table", p.pos(finder.Pos()), "the candidates are looked up in "+other+", but their parts are kept in "+nodes)
	}
}

func (k *caching) nodeParts(v ssa.Value) []ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	return literalFields(al)
}

// samePart: the same operands, possibly converted element by element.
func (k *caching) samePart(a, b ssa.Value) bool {
	a, b = k.conv(a), k.conv(b)
	return a == b || k.keyC(a) == k.keyC(b)
}

func (k *caching) conv(v ssa.Value) ssa.Value {
	for n := 0; n < 4; n++ {
		v = k.strip(v)
		call, ok := v.(*ssa.Call)
		if !ok || len(call.Call.Args) != 1 {
			return v
		}
		g := staticCallee(&call.Call)
		if g == nil || !inModule(g) {
			return v
		}
		_, s1 := call.Type().Underlying().(*types.Slice)
		_, s2 := call.Call.Args[0].Type().Underlying().(*types.Slice)
		if !s1 || !s2 {
			return v
		}
		v = call.Call.Args[0]
	}
	return v
}

func (k *caching) looksUp(g *ssa.Function, table string) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if lk, ok := in.(*ssa.Lookup); ok {
				if t, _ := valueFieldKey(lk.X, 0); t == table {
					return true
				}
			}
		}
	}
	return false
}

// compares: a candidate is accepted only after all its fields were compared.
func (k *caching) compares(g *ssa.Function, st *types.Struct, t types.Type) {
	c, p := k.c, k.p
	got := map[string]bool{}
	bad := ""
	k.compared(g, t, got, &bad, 0, map[*ssa.Function]bool{})
	var missing []string
	for i := 0; i < st.NumFields(); i++ {
		if !got[st.Field(i).Name()] {
			missing = append(missing, st.Field(i).Name())
		}
	}
	if bad == "" && len(missing) > 0 {
		bad = "a formula is taken for another one although they differ in " + strings.Join(missing, ", ")
	}
	c.Cond(bad == "", "interned", rel(g)+" compares", p.pos(g.Pos()), bad)
}

func (k *caching) nodeField(v ssa.Value, t types.Type) string {
	switch x := v.(type) {
	case *ssa.Field:
		if types.Identical(deref(x.X.Type()), deref(t)) {
			return fieldNm(x.X.Type(), x.Field)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), deref(t)) {
				return fieldNm(fa.X.Type(), fa.Field)
			}
		}
	}
	return ""
}

func (k *caching) compared(g *ssa.Function, t types.Type, got map[string]bool, bad *string, d int, seen map[*ssa.Function]bool) {
	if d > 3 || seen[g] {
		return
	}
	seen[g] = true
	for _, an := range g.AnonFuncs {
		k.compared(an, t, got, bad, d+1, seen)
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if x.Op != token.EQL && x.Op != token.NEQ {
					continue
				}
				l, r := k.nodeField(x.X, t), k.nodeField(x.Y, t)
				if l != "" && r != "" {
					if l != r {
						*bad = "the fields " + l + " and " + r + " are compared with each other"
					} else if k.keyC(x.X) == k.keyC(x.Y) {
						*bad = "the field " + l + " is compared with itself"
					} else {
						got[l] = true
					}
				} else if l != "" {
					got[l] = true
				} else if r != "" {
					got[r] = true
				}
			case *ssa.Call:
				h := staticCallee(&x.Call)
				if h == nil {
					continue
				}
				var fs []string
				for _, a := range x.Call.Args {
					if n := k.nodeField(a, t); n != "" {
						fs = append(fs, n)
					}
				}
				if len(fs) == 2 && fs[0] != fs[1] {
					*bad = "the fields " + fs[0] + " and " + fs[1] + " are compared with each other"
				}
				if len(fs) == 2 && len(x.Call.Args) >= 2 && k.keyC(x.Call.Args[0]) == k.keyC(x.Call.Args[1]) {
					*bad = "the field " + fs[0] + " is compared with itself"
				}
				if len(fs) > 0 && isBoolTy(x.Type()) {
					if inModule(h) {
						if k.equalSlices(canonOf(h)) {
							got[fs[0]] = true
						}
					} else if n := stdName(h); n == "slices.Equal" || n == "reflect.DeepEqual" {
						got[fs[0]] = true
					}
				}
				if inModule(h) && len(fs) == 0 {
					k.compared(canonOf(h), t, got, bad, d+1, seen)
				}
			}
		}
	}
}

func isBoolTy(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// equalSlices: the function compares the lengths of its two slices and the
// elements at the same position.
func (k *caching) equalSlices(h *ssa.Function) bool {
	lens, elems := false, false
	for _, b := range h.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if x.Op != token.EQL && x.Op != token.NEQ {
					continue
				}
				la, lb := lenOf(x.X), lenOf(x.Y)
				if la != nil && lb != nil && paramIndex(la) >= 0 && paramIndex(lb) >= 0 && la != lb {
					lens = true
				}
				ia, ib := elemOf(x.X), elemOf(x.Y)
				if ia != nil && ib != nil && ia.X != ib.X && paramIndex(ia.X) >= 0 && paramIndex(ib.X) >= 0 {
					elems = ia.Index == ib.Index || k.keyC(ia.Index) == k.keyC(ib.Index)
				}
			case *ssa.Call:
				if g := staticCallee(&x.Call); g != nil && stdName(g) == "slices.Equal" {
					lens, elems = true, true
				}
			}
		}
	}
	return lens && elems
}

func lenOf(v ssa.Value) ssa.Value {
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return call.Call.Args[0]
	}
	return nil
}

func elemOf(v ssa.Value) *ssa.IndexAddr {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		ia, _ := u.X.(*ssa.IndexAddr)
		return ia
	}
	return nil
}

// ---------------------------------------------------------------- resets

func (k *caching) resets() {
	c, p := k.c, k.p
	// the caches that are looked up: slices of slots within a kernel
	kern := p.Type("bdd", "Kernel")
	st := structOf(kern)
	if st == nil {
		c.Bad("reset", "Kernel", "", "the kernel type was not found")
		return
	}
	looked := map[int]bool{}
	cacheT := map[int]bool{}
	for i := 0; i < st.NumFields(); i++ {
		s := structOf(deref(st.Field(i).Type()))
		if s == nil || !isPtr(st.Field(i).Type()) {
			continue
		}
		for j := 0; j < s.NumFields(); j++ {
			if sl, ok := s.Field(j).Type().Underlying().(*types.Slice); ok {
				if e := structOf(deref(sl.Elem())); e != nil && isPtr(sl.Elem()) && e.NumFields() >= 3 {
					cacheT[i] = true
				}
			}
		}
	}
	onField := func(call *ssa.CallCommon) int {
		if len(call.Args) == 0 {
			return -1
		}
		u, ok := call.Args[0].(*ssa.UnOp)
		if !ok {
			return -1
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || !types.Identical(deref(fa.X.Type()), kern) || !cacheT[fa.Field] {
			return -1
		}
		return fa.Field
	}
	resetsEntry := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if shortPkg(pkgOf(f)) == "bdd" && k.emptiesTable(f) {
			resetsEntry[f] = true
		}
	}
	cleared := map[*ssa.Function]map[int]bool{}
	for _, f := range p.Funcs {
		if shortPkg(pkgOf(f)) != "bdd" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := staticCallee(ci.Common())
				if g == nil {
					continue
				}
				i := onField(ci.Common())
				if i < 0 {
					continue
				}
				if resetsEntry[canonOf(g)] {
					if cleared[f] == nil {
						cleared[f] = map[int]bool{}
					}
					cleared[f][i] = true
				} else if call, ok := in.(*ssa.Call); ok && structOf(deref(call.Type())) != nil {
					looked[i] = true
				}
			}
		}
	}
	// functions that empty all the caches in use
	full := map[*ssa.Function]bool{}
	for f, m := range cleared {
		all := len(m) > 0
		var missing []string
		for i := range looked {
			if !m[i] {
				all = false
				missing = append(missing, st.Field(i).Name())
			}
		}
		if len(m) >= 2 {
			c.Cond(all, "reset", rel(f)+" complete", p.pos(f.Pos()), "the operator caches are emptied except "+strings.Join(missing, ", "))
		}
		full[f] = all
	}
	// who leaves the caches outdated
	dirty := map[*ssa.Function]ssa.Instruction{}
	clean := map[*ssa.Function]bool{}
	for f := range full {
		if full[f] {
			clean[f] = true
		}
	}
	var fns []*ssa.Function
	for _, f := range p.Funcs {
		if shortPkg(pkgOf(f)) == "bdd" && len(f.Blocks) > 0 {
			fns = append(fns, f)
		}
	}
	for round := 0; round < 12; round++ {
		changed := false
		for _, f := range fns {
			if full[f] {
				continue
			}
			w, cl := k.outdated(f, dirty, clean, kern)
			if k.makesKernel(f, kern) {
				w = nil // nothing can be remembered yet
			}
			if (w != nil) != (dirty[f] != nil) || cl != clean[f] {
				changed = true
			}
			if w != nil {
				dirty[f] = w
			} else {
				delete(dirty, f)
			}
			clean[f] = cl
		}
		if !changed {
			break
		}
	}
	for _, f := range fns {
		if f.Signature.Recv() == nil || !exported(f) {
			if f.Signature.Recv() != nil || f.Parent() != nil {
				continue
			}
		}
		if k.makesKernel(f, kern) || f.Signature.Recv() == nil && !exported(f) {
			continue
		}
		reach := false
		for g := range p.Reach(f) {
			if k.ownDirt(g, kern) != nil {
				reach = true
			}
		}
		if !reach {
			continue
		}
		w := dirty[f]
		pos := p.pos(f.Pos())
		if w != nil {
			pos = p.pos(w.Pos())
		}
		c.Cond(w == nil, "reset", rel(f), pos, "the operator caches are not emptied after nodes were freed or levels changed")
	}
}

func (k *caching) makesKernel(f *ssa.Function, kern types.Type) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && types.Identical(deref(al.Type()), kern) {
				return true
			}
		}
	}
	return false
}

// emptiesTable: every slot of the table is made to match no question.
func (k *caching) emptiesTable(f *ssa.Function) bool {
	if len(f.Params) != 1 || len(f.Blocks) < 2 {
		return false
	}
	for _, b := range f.Blocks {
		if !inLoop(b) {
			continue
		}
		for _, in := range b.Instrs {
			if sl, ok := in.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
				return false
			}
			if ia, ok := in.(*ssa.IndexAddr); ok {
				if sl, ok := ia.X.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
					return false
				}
			}
			switch x := in.(type) {
			case ssa.CallInstruction:
				if g := staticCallee(x.Common()); g != nil && inModule(g) && k.invalidates(canonOf(g)) {
					return true
				}
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && negConst(x.Val) && k.asked[fieldNm(fa.X.Type(), fa.Field)] && structOf(deref(fa.X.Type())) != nil && structOf(deref(fa.X.Type())).NumFields() >= 3 {
					return true
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && isPtr(x.Val.Type()) {
					_ = ia
					if call, ok := x.Val.(*ssa.Call); ok {
						if g := staticCallee(&call.Call); g != nil && inModule(g) && k.invalidates(canonOf(g)) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func negConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) < 0
}

// invalidates: a negative number is stored to a part of the question.
func (k *caching) invalidates(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && negConst(st.Val) && k.asked[fieldNm(fa.X.Type(), fa.Field)] {
					return true
				}
			}
		}
	}
	return false
}

// ownDirt: the function itself frees nodes or changes the levels.
func (k *caching) ownDirt(f *ssa.Function, kern types.Type) ssa.Instruction {
	var frees ssa.Instruction
	counts := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if key, _ := valueFieldKey(ia.X, 0); key == "bdd.Kernel.level2var" || key == "bdd.Kernel.var2level" {
						return x
					}
				}
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					if bo, ok := x.Val.(*ssa.BinOp); ok && bo.Op == token.ADD && fieldKey(fa.X.Type(), fa.Field) == "bdd.Kernel.freenum" {
						if cn, ok := bo.Y.(*ssa.Const); ok && cn.Int64() == 1 {
							counts = true
						}
					}
					if fieldKey(fa.X.Type(), fa.Field) == "bdd.node.low" && negConst(x.Val) {
						frees = x
					}
				}
			case *ssa.Call:
				g := staticCallee(&x.Call)
				if g != nil && inModule(g) && len(x.Call.Args) == 3 && negConst(x.Call.Args[2]) && writesField(canonOf(g), "bdd.node.low") {
					frees = x
				}
			}
		}
	}
	if frees != nil && counts {
		return frees
	}
	return nil
}

func writesField(f *ssa.Function, key string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldKey(fa.X.Type(), fa.Field) == key {
					return true
				}
			}
		}
	}
	return false
}

// outdated: a way through the function that ends with outdated caches; and
// whether every way empties them.
func (k *caching) outdated(f *ssa.Function, dirty map[*ssa.Function]ssa.Instruction, clean map[*ssa.Function]bool, kern types.Type) (ssa.Instruction, bool) {
	own := k.ownDirt(f, kern)
	type st struct {
		dirt     ssa.Instruction
		uncl     bool // not emptied on some way
		reached_ bool
	}
	in := map[*ssa.BasicBlock]st{f.Blocks[0]: {nil, true, true}}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	var res ssa.Instruction
	always := true
	out := map[*ssa.BasicBlock]st{}
	for n := 0; len(work) > 0 && n < 4000; n++ {
		b := work[0]
		work = work[1:]
		s := in[b]
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				for _, g := range k.bddTargets(ci) {
					if clean[g] {
						s.dirt, s.uncl = nil, false
					}
					if dirty[g] != nil {
						s.dirt = i
					}
				}
			}
			if own != nil && (i == own || isLevelStore(i)) {
				s.dirt = i
			}
		}
		if o, ok := out[b]; ok && o == s {
			continue
		}
		out[b] = s
		for _, t := range k.liveSuccs(b, 0) {
			x, ok := in[t]
			y := x
			if !ok {
				y = st{s.dirt, s.uncl, true}
			} else {
				if s.dirt != nil && x.dirt == nil {
					y.dirt = s.dirt
				}
				y.uncl = x.uncl || s.uncl
			}
			if !ok || y != x {
				in[t] = y
				work = append(work, t)
			}
		}
	}
	for _, b := range f.Blocks {
		if o, ok := out[b]; ok {
			if _, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet {
				if o.dirt != nil {
					res = o.dirt
				}
				if o.uncl {
					always = false
				}
			}
		}
	}
	return res, always
}

func isLevelStore(i ssa.Instruction) bool {
	st, ok := i.(*ssa.Store)
	if !ok {
		return false
	}
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	key, _ := valueFieldKey(ia.X, 0)
	return key == "bdd.Kernel.level2var" || key == "bdd.Kernel.var2level"
}

func (k *caching) bddTargets(ci ssa.CallInstruction) []*ssa.Function {
	var out []*ssa.Function
	for _, g := range k.p.Targets(ci.Common()) {
		if g = canonOf(g); shortPkg(pkgOf(g)) == "bdd" {
			out = append(out, g)
		}
	}
	// function values passed down are run by the callee
	for _, a := range ci.Common().Args {
		if mc, ok := a.(*ssa.MakeClosure); ok {
			if g, ok := mc.Fn.(*ssa.Function); ok {
				out = append(out, g)
			}
		}
	}
	return out
}

// liveSuccs: the successors of a block, without those that a comparison with
// the constant result of a call rules out.
func (k *caching) liveSuccs(b *ssa.BasicBlock, d int) []*ssa.BasicBlock {
	if len(b.Instrs) == 0 {
		return b.Succs
	}
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return b.Succs
	}
	bo, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || d > 4 {
		return b.Succs
	}
	x, okX := k.constOf(bo.X, d)
	y, okY := k.constOf(bo.Y, d)
	if !okX || !okY {
		return b.Succs
	}
	switch bo.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if constant.Compare(x, bo.Op, y) {
			return b.Succs[:1]
		}
		return b.Succs[1:]
	}
	return b.Succs
}

func (k *caching) constOf(v ssa.Value, d int) (constant.Value, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value, x.Value != nil && x.Value.Kind() == constant.Int
	case *ssa.Call:
		g := staticCallee(&x.Call)
		if g == nil || !inModule(g) || len(canonOf(g).Blocks) == 0 {
			return nil, false
		}
		g = canonOf(g)
		live := map[*ssa.BasicBlock]bool{g.Blocks[0]: true}
		work := []*ssa.BasicBlock{g.Blocks[0]}
		var res constant.Value
		for len(work) > 0 {
			b := work[0]
			work = work[1:]
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(r.Results) != 1 {
					return nil, false
				}
				c, ok := r.Results[0].(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.Int || res != nil && !constant.Compare(res, token.EQL, c.Value) {
					return nil, false
				}
				res = c.Value
			}
			for _, t := range k.liveSuccs(b, d+1) {
				if !live[t] {
					live[t] = true
					work = append(work, t)
				}
			}
		}
		return res, res != nil
	}
	return nil, false
}

// ---------------------------------------------------------------- what else the answer depends on

// sideState: before the remembering function runs, its callers note a
// parameter in fields that the function reads; the question must then contain
// this parameter.
func (k *caching) sideState(s *entrySite, pos string) {
	reads := map[string]bool{}
	k.readFields(s.fn, reads, 0, map[*ssa.Function]bool{})
	for _, call := range k.p.callsOf(s.fn) {
		from := call.Parent()
		if from == s.fn {
			continue
		}
		top := from
		for top.Parent() != nil {
			top = top.Parent()
		}
		args := callArgs(call.Common(), s.fn)
		for _, b := range top.Blocks {
			for _, in := range b.Instrs {
				set, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := staticCallee(&set.Call)
				if g == nil || !inModule(g) || g == s.fn {
					continue
				}
				g = canonOf(g)
				if len(g.Blocks) == 0 || g == canonOf(call.Parent()) || top == from && !after(set, call) {
					continue
				}
				w := map[string]bool{}
				k.writtenFields(g, w)
				common := ""
				for _, x := range sorted(w) {
					if reads[x] && !k.entryPart(s, x) {
						common = x
					}
				}
				if common == "" {
					continue
				}
				for _, a := range set.Call.Args {
					prm, isPrm := k.through(a).(*ssa.Parameter)
					if !isPrm || prm.Parent() != top || isPtr(prm.Type()) {
						continue
					}
					ok := false
					for _, x := range args {
						if k.contains(x, prm, 0) {
							ok = true
						}
					}
					k.c.Cond(ok, "covered", rel(s.fn)+" from "+rel(top)+" "+common, pos, "the answer also depends on "+prm.Name()+" (noted in "+common+" by "+rel(g)+"), which is not part of the question")
				}
			}
		}
	}
}

// entryPart: a field of the cache entries themselves.
func (k *caching) entryPart(s *entrySite, field string) bool {
	st := structOf(deref(s.entry.Type()))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if fieldKey(s.entry.Type(), i) == field {
			return true
		}
	}
	return false
}

// through: the parameter behind a variable that closures share.
func (k *caching) through(v ssa.Value) ssa.Value {
	for n := 0; n < 6; n++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			v = x.X
		case *ssa.Alloc:
			s := soleStore(x)
			if s == nil {
				return v
			}
			v = s
		case *ssa.FreeVar:
			b := bindingOf(x)
			if b == nil {
				return v
			}
			v = b
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
	return v
}

func (k *caching) contains(v ssa.Value, prm *ssa.Parameter, d int) bool {
	v = k.through(v)
	if v == ssa.Value(prm) {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return k.contains(x.X, prm, d+1) || k.contains(x.Y, prm, d+1)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if k.contains(a, prm, d+1) {
				return true
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if k.contains(e, prm, d+1) {
				return true
			}
		}
	case *ssa.Extract:
		return k.contains(x.Tuple, prm, d+1)
	}
	return false
}

func (k *caching) readFields(f *ssa.Function, out map[string]bool, d int, seen map[*ssa.Function]bool) {
	if d > 2 || seen[f] || len(f.Blocks) == 0 {
		return
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
					out[fieldKey(fa.X.Type(), fa.Field)] = true
				}
			case *ssa.Call:
				if g := staticCallee(&x.Call); g != nil && inModule(g) && isBoolTy(x.Type()) {
					k.readFields(canonOf(g), out, d+1, seen)
				}
			}
		}
	}
}

func (k *caching) writtenFields(f *ssa.Function, out map[string]bool) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			switch a := st.Addr.(type) {
			case *ssa.FieldAddr:
				out[fieldKey(a.X.Type(), a.Field)] = true
			case *ssa.IndexAddr:
				if t, _ := valueFieldKey(a.X, 0); t != "" {
					out[t] = true
				}
			}
		}
	}
}

// missed: the block can be reached although the comparison failed.
func missed(cond *ssa.BinOp, target *ssa.BasicBlock) bool {
	ifi, ok := cond.Block().Instrs[len(cond.Block().Instrs)-1].(*ssa.If)
	if !ok || ifi.Cond != ssa.Value(cond) {
		return false
	}
	i := 1
	if cond.Op == token.NEQ {
		i = 0
	}
	type edge struct{ from, to *ssa.BasicBlock }
	seen := map[edge]bool{}
	var walk func(e edge) bool
	walk = func(e edge) bool {
		if seen[e] || e.to == cond.Block() {
			return false
		}
		seen[e] = true
		if e.to == target {
			return true
		}
		succs := e.to.Succs
		if ifi, ok := e.to.Instrs[len(e.to.Instrs)-1].(*ssa.If); ok {
			if ph, ok := ifi.Cond.(*ssa.Phi); ok && ph.Block() == e.to {
				for i, pr := range e.to.Preds {
					if pr == e.from {
						if cn, ok := ph.Edges[i].(*ssa.Const); ok && cn.Value != nil {
							if constant.BoolVal(cn.Value) {
								succs = succs[:1]
							} else {
								succs = succs[1:]
							}
						}
					}
				}
			}
		}
		for _, x := range succs {
			if walk(edge{e.to, x}) {
				return true
			}
		}
		return false
	}
	return walk(edge{cond.Block(), cond.Block().Succs[i]})
}
