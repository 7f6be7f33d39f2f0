package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Who may share the data behind a value: a whole-program, flow-insensitive
// alias analysis with context-sensitive parameters. A label names a parameter
// of a function or a field of the heap.
type label struct {
	fn    *ssa.Function
	idx   int
	field string
	deep  int // the data itself, or the data held in its elements
}

func deeper(ls labels) labels {
	out := labels{}
	for l := range ls {
		if l.deep < 2 {
			l.deep++
		}
		out[l] = true
	}
	return out
}

func (l label) isField() bool { return l.fn == nil }

type witness struct {
	fn   *ssa.Function
	pos  token.Pos
	what string
	via  *witness
}

func (w *witness) path(p *Program) string {
	var s []string
	for x, n := w, 0; x != nil && n < 6; x, n = x.via, n+1 {
		s = append(s, x.what+" in "+rel(x.fn)+" ("+p.pos(x.pos)+")")
	}
	return strings.Join(s, " <- ")
}

type labels map[label]bool

type aliasing struct {
	p       *Program
	val     map[ssa.Value]labels
	elem    map[ssa.Value]labels // data put into a container
	cell    map[ssa.Value]labels // contents of local variables
	cellF   map[cellKey]labels
	ret     map[*ssa.Function]map[int]labels
	writes  map[label]*witness // element or field writes through the label
	appends map[label]*witness
	sorts   map[label]*witness                // brought into natural order
	keeps   map[label]map[label]*witness      // stored into a heap field
	inside  map[label]*witness                // put into a container as an element
	ext     map[label]*witness                // put into a container of another module
	at      map[label]map[ssa.Instruction]int // 1 put in, 2 written, 4 created
	sites   map[ssa.Instruction]int
	changed bool
}

func (a *aliasing) site(in ssa.Instruction) int {
	if n, ok := a.sites[in]; ok {
		return n
	}
	a.sites[in] = len(a.sites)
	return a.sites[in]
}

// fromElement: the value was read from the container that holds it, so that
// writing it is filling the container.
func fromElement(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.IndexAddr)
		return ok
	case *ssa.Lookup, *ssa.Index:
		return true
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Lookup)
		return ok
	}
	return false
}

// reused: data put into a container and written afterwards.
func (a *aliasing) reused(l label) (put, wr ssa.Instruction) {
	m := a.at[l]
	var creators []*ssa.BasicBlock
	for in, b := range m {
		if b&4 != 0 {
			creators = append(creators, in.Block())
		}
	}
	for in, b := range m {
		if b&1 == 0 {
			continue
		}
		for in2, b2 := range m {
			if b2&2 != 0 && reachesAfter(in, in2, creators) {
				if put == nil || in.Pos() < put.Pos() || in == put && in2.Pos() < wr.Pos() {
					put, wr = in, in2
				}
			}
		}
	}
	return
}

// reachesAfter: to can run after from without passing one of the blocks.
func reachesAfter(from, to ssa.Instruction, avoid []*ssa.BasicBlock) bool {
	bad := map[*ssa.BasicBlock]bool{}
	for _, b := range avoid {
		bad[b] = true
	}
	if from.Block() == to.Block() {
		seen := false
		for _, in := range from.Block().Instrs {
			if seen && in == to {
				return true
			}
			if in == from {
				seen = true
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, from.Block().Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] || bad[b] {
			continue
		}
		seen[b] = true
		if b == to.Block() {
			return true
		}
		work = append(work, b.Succs...)
	}
	return false
}

// dataType: types whose data an alias can share.
func dataType(t types.Type) bool { return dataType1(t, 0) }

func dataType1(t types.Type, d int) bool {
	if d > 4 {
		return false
	}
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		if n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int" {
			return true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Interface:
		return u.NumMethods() == 0
	case *types.Pointer:
		return dataType1(u.Elem(), d+1)
	case *types.Struct:
		n, ok := t.(*types.Named)
		if !ok {
			return false
		}
		// plain data: structs that only consist of data and numbers
		if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) || !valuePkgs[shortPkg(n.Obj().Pkg())] {
			return false
		}
		return plainStruct(u, 0)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if dataType1(u.At(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

// valuePkgs hold the data a caller exchanges with the library.
var valuePkgs = map[string]bool{"formula": true, "assignment": true, "model": true, "transformation": true, "dnnf": true}

func plainStruct(s *types.Struct, d int) bool {
	if d > 3 || s.NumFields() > 5 {
		return false
	}
	data := false
	for i := 0; i < s.NumFields(); i++ {
		switch u := types.Unalias(s.Field(i).Type()).Underlying().(type) {
		case *types.Basic:
		case *types.Slice:
			data = true
		case *types.Map:
			data = true
		case *types.Pointer:
			if st, ok := u.Elem().Underlying().(*types.Struct); ok && plainStruct(st, d+1) {
				data = true
			} else {
				return false
			}
		case *types.TypeParam:
		default:
			return false
		}
	}
	return data
}

func newAliasing(p *Program) *aliasing {
	a := &aliasing{p: p, val: map[ssa.Value]labels{}, elem: map[ssa.Value]labels{}, cell: map[ssa.Value]labels{}, cellF: map[cellKey]labels{},
		sites: map[ssa.Instruction]int{}, ret: map[*ssa.Function]map[int]labels{}, writes: map[label]*witness{}, appends: map[label]*witness{}, sorts: map[label]*witness{},
		keeps: map[label]map[label]*witness{}, inside: map[label]*witness{}, ext: map[label]*witness{}, at: map[label]map[ssa.Instruction]int{}}
	for n := 0; n < 60; n++ {
		a.changed = false
		for _, f := range p.Funcs {
			a.fn(f)
		}
		if !a.changed {
			break
		}
	}
	return a
}

func (a *aliasing) add(m map[ssa.Value]labels, v ssa.Value, ls labels) {
	if len(ls) == 0 {
		return
	}
	s := m[v]
	if s == nil {
		s = labels{}
		m[v] = s
	}
	for l := range ls {
		if !s[l] {
			s[l] = true
			a.changed = true
		}
	}
}

func (a *aliasing) addF(k cellKey, ls labels) {
	if len(ls) == 0 {
		return
	}
	s := a.cellF[k]
	if s == nil {
		s = labels{}
		a.cellF[k] = s
	}
	for l := range ls {
		if !s[l] {
			s[l] = true
			a.changed = true
		}
	}
}

func (a *aliasing) write(ls labels, w *witness) {
	for l := range ls {
		if a.writes[l] == nil {
			a.writes[l] = w
			a.changed = true
		}
	}
}

func (a *aliasing) mark(ls labels, in ssa.Instruction, bit int) {
	for l := range ls {
		if l.fn == nil || l.fn != in.Parent() || l.deep > 0 {
			continue
		}
		m := a.at[l]
		if m == nil {
			m = map[ssa.Instruction]int{}
			a.at[l] = m
		}
		m[in] |= bit
	}
}

// put: the data becomes an element of a container.
func (a *aliasing) put(ls labels, in ssa.Instruction, w *witness) {
	a.mark(ls, in, 1)
	for l := range ls {
		if a.inside[l] == nil {
			a.inside[l] = w
			a.changed = true
		}
	}
}

func (a *aliasing) sorted(ls labels, w *witness) {
	for l := range ls {
		if a.sorts[l] == nil {
			a.sorts[l] = w
			a.changed = true
		}
	}
}

func (a *aliasing) app(ls labels, w *witness) {
	for l := range ls {
		if a.appends[l] == nil {
			a.appends[l] = w
			a.changed = true
		}
	}
}

func (a *aliasing) keepIn(ls labels, field label, w *witness) {
	for l := range ls {
		if l == field {
			continue
		}
		m := a.keeps[l]
		if m == nil {
			m = map[label]*witness{}
			a.keeps[l] = m
		}
		if m[field] == nil {
			m[field] = w
			a.changed = true
		}
	}
}

// keepDeep: kept as an element of containers held in fields.
func (a *aliasing) keepDeep(ls, containers labels, w *witness) {
	for l := range deeper(containers) {
		if l.isField() {
			a.keepIn(ls, l, w)
		}
	}
}

func union(xs ...labels) labels {
	out := labels{}
	for _, x := range xs {
		for l := range x {
			out[l] = true
		}
	}
	return out
}

func (a *aliasing) of(v ssa.Value) labels { return a.val[v] }

// content is what a load through addr yields.
func (a *aliasing) content(addr ssa.Value, t types.Type) labels {
	if !dataType(t) {
		return nil
	}
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		k := fieldKey(x.X.Type(), x.Field)
		if al, ok := x.X.(*ssa.Alloc); ok {
			return union(a.cellF[cellKey{al, x.Field}], a.cell[al])
		}
		if fresh := a.freshField(x); fresh != nil {
			return a.of(fresh)
		}
		return union(labels{label{field: k}: true}, a.of(x.X))
	case *ssa.IndexAddr:
		return union(deeper(a.of(x.X)), a.elem[x.X])
	case *ssa.Alloc:
		out := a.cell[x]
		if st := structOf(deref(x.Type())); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				out = union(out, a.cellF[cellKey{x, i}])
			}
		}
		return out
	case *ssa.Global:
		return labels{label{field: "global " + x.String()}: true}
	}
	return union(a.of(addr), a.cell[addr])
}

// freshField: the field was set to a new value earlier in the same function.
func (a *aliasing) freshField(x *ssa.FieldAddr) ssa.Value {
	f := x.Parent()
	var found ssa.Value
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fa.Field != x.Field || fa.X != x.X {
				continue
			}
			if b == x.Block() {
				before := false
				for _, in2 := range b.Instrs[i:] {
					if in2 == ssa.Instruction(x) {
						before = true
					}
				}
				if !before {
					continue
				}
			} else if !b.Dominates(x.Block()) {
				continue
			}
			switch st.Val.(type) {
			case *ssa.MakeSlice, *ssa.MakeMap:
				found = st.Val
			}
		}
	}
	return found
}

func (a *aliasing) fn(f *ssa.Function) {
	for i, p := range f.Params {
		if dataType(p.Type()) {
			a.add(a.val, p, labels{label{fn: f, idx: i}: true})
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			a.instr(f, in)
		}
	}
}

func (a *aliasing) instr(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		if isNamedPath(x.Type(), "math/big", "Int") {
			l := label{fn: f, idx: -1 - a.site(x)}
			a.add(a.val, x, labels{l: true})
			a.mark(labels{l: true}, x, 4)
		}
	case *ssa.MakeSlice:
		l := label{fn: f, idx: -1 - a.site(x)}
		a.add(a.val, x, labels{l: true})
		a.mark(labels{l: true}, x, 4)
	case *ssa.Phi:
		if dataType(x.Type()) {
			for _, e := range x.Edges {
				a.add(a.val, x, a.of(e))
				a.add(a.elem, x, a.elem[e])
			}
		}
	case *ssa.Slice:
		a.add(a.val, x, a.of(x.X))
		a.add(a.elem, x, a.elem[x.X])
		if al, ok := x.X.(*ssa.Alloc); ok {
			if el, ok := x.Type().Underlying().(*types.Slice); ok && dataType(el.Elem()) {
				a.add(a.elem, x, a.cell[al])
			}
		}
	case *ssa.ChangeType:
		a.add(a.val, x, a.of(x.X))
	case *ssa.Convert:
		a.add(a.val, x, a.of(x.X))
	case *ssa.MultiConvert:
		a.add(a.val, x, a.of(x.X))
	case *ssa.MakeInterface:
		a.add(a.val, x, a.of(x.X))
	case *ssa.ChangeInterface:
		a.add(a.val, x, a.of(x.X))
	case *ssa.TypeAssert:
		a.add(a.val, x, a.of(x.X))
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			if dataType(x.Type()) {
				a.add(a.val, x, a.result(t, x.Index))
			}
		default:
			if dataType(x.Type()) {
				a.add(a.val, x, a.of(x.Tuple))
			}
		}
	case *ssa.Range:
		a.add(a.val, x, union(deeper(a.of(x.X)), a.elem[x.X]))
	case *ssa.Next:
		a.add(a.val, x, a.of(x.Iter))
	case *ssa.Lookup:
		if dataType(x.Type()) {
			a.add(a.val, x, union(deeper(a.of(x.X)), a.elem[x.X]))
		}
	case *ssa.Index:
		if dataType(x.Type()) {
			a.add(a.val, x, union(deeper(a.of(x.X)), a.elem[x.X]))
		}
	case *ssa.Field:
		if dataType(x.Type()) {
			a.add(a.val, x, union(a.of(x.X), labels{label{field: fieldKey(x.X.Type(), x.Field)}: true}))
		}
	case *ssa.FieldAddr:
		// the address carries the labels of its base
		a.add(a.val, x, a.of(x.X))
	case *ssa.IndexAddr:
		a.add(a.val, x, a.of(x.X))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a.add(a.val, x, a.content(x.X, x.Type()))
		}
	case *ssa.MakeClosure:
		g, _ := x.Fn.(*ssa.Function)
		if g == nil {
			return
		}
		for i, bnd := range x.Bindings {
			if i < len(g.FreeVars) {
				fv := g.FreeVars[i]
				a.add(a.val, fv, a.of(bnd))
				a.add(a.cell, fv, union(a.cell[bnd]))
				a.add(a.cell, bnd, a.cell[fv])
			}
		}
	case *ssa.Store:
		w := &witness{fn: f, pos: x.Pos(), what: "write"}
		ls := a.of(x.Val)
		switch ad := x.Addr.(type) {
		case *ssa.FieldAddr:
			if al, ok := ad.X.(*ssa.Alloc); ok {
				a.addF(cellKey{al, ad.Field}, ls)
				a.keepIn(ls, label{field: fieldKey(ad.X.Type(), ad.Field)}, w)
				return
			}
			a.keepIn(ls, label{field: fieldKey(ad.X.Type(), ad.Field)}, w)
			switch x.Val.(type) {
			case *ssa.MakeSlice, *ssa.MakeMap:
				// a lazily computed part
			default:
				if k, ok := x.Val.(*ssa.Const); !ok || !k.IsNil() {
					a.write(a.of(ad.X), w)
				}
			}
		case *ssa.IndexAddr:
			a.write(a.of(ad.X), w)
			if !fromElement(ad.X) {
				a.mark(a.of(ad.X), in, 2)
			}
			if dataType(x.Val.Type()) {
				a.put(ls, in, w)
			}
			if al, ok := ad.X.(*ssa.Alloc); ok {
				a.add(a.cell, al, ls)
				return
			}
			a.keepDeep(ls, a.of(ad.X), w)
			a.add(a.elem, ad.X, ls)
		case *ssa.Alloc:
			a.add(a.cell, ad, ls)
		case *ssa.FreeVar:
			a.add(a.cell, ad, ls)
			if dataType(deref(ad.Type())) {
				// assigning the captured variable, not its data
			}
		case *ssa.Global:
			a.keepIn(ls, label{field: "global " + ad.String()}, w)
		default:
			// *p = v for a pointer to data
			a.write(a.of(x.Addr), w)
		}
	case *ssa.MapUpdate:
		w := &witness{fn: f, pos: x.Pos(), what: "map write"}
		a.write(a.of(x.Map), w)
		if !fromElement(x.Map) {
			a.mark(a.of(x.Map), in, 2)
		}
		ls := union(a.of(x.Value), a.of(x.Key))
		a.put(ls, in, w)
		a.keepDeep(ls, a.of(x.Map), w)
		a.add(a.elem, x.Map, ls)
	case *ssa.Return:
		m := a.ret[f]
		if m == nil {
			m = map[int]labels{}
			a.ret[f] = m
		}
		for i, r := range x.Results {
			ls := a.of(r)
			if al, ok := r.(*ssa.Alloc); ok {
				ls = union(ls, a.content(al, deref(al.Type())))
			}
			if len(ls) == 0 {
				continue
			}
			if m[i] == nil {
				m[i] = labels{}
			}
			for l := range ls {
				if !m[i][l] {
					m[i][l] = true
					a.changed = true
				}
			}
		}
	case ssa.CallInstruction:
		a.call(f, x)
	}
}

var bigReaders = map[string]bool{"Cmp": true, "CmpAbs": true, "Sign": true, "String": true, "Text": true, "Int64": true, "Uint64": true,
	"IsInt64": true, "IsUint64": true, "BitLen": true, "Bits": true, "Bytes": true, "Bit": true, "Append": true, "Format": true,
	"TrailingZeroBits": true, "Float64": true, "ProbablyPrime": true, "FillBytes": true}

var writersOf0 = map[string]bool{
	"sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true, "sort.Ints": true, "sort.Strings": true, "sort.Float64s": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true, "slices.Delete": true, "slices.DeleteFunc": true,
	"slices.Insert": true, "slices.Compact": true, "slices.CompactFunc": true, "slices.Replace": true,
	"maps.Copy": true, "maps.DeleteFunc": true, "maps.Insert": true,
}

func stdName(g *ssa.Function) string {
	if o := g.Origin(); o != nil {
		g = o
	}
	if g.Pkg == nil && g.Object() == nil {
		return ""
	}
	pk := pkgOf(g)
	if pk == nil {
		return ""
	}
	return pk.Path() + "." + g.Name()
}

// fullCap: a slice expression without spare capacity.
func fullCap(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil {
		return false
	}
	if s.Max == s.High {
		return true
	}
	if a, ok := s.Max.(*ssa.Const); ok && a.Value != nil {
		if b, ok := s.High.(*ssa.Const); ok && b.Value != nil {
			return constant.Compare(a.Value, token.EQL, b.Value)
		}
	}
	return canonVal(s.Max) != "" && s.High != nil && canonVal(s.Max) == canonVal(s.High)
}

func (a *aliasing) call(f *ssa.Function, ci ssa.CallInstruction) {
	c := ci.Common()
	res, _ := ci.(ssa.Value)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			w := &witness{fn: f, pos: ci.Pos(), what: "append"}
			if !fullCap(c.Args[0]) {
				a.app(a.of(c.Args[0]), w)
			}
			if sl, ok := c.Args[0].(*ssa.Slice); ok && sl.High != nil && sl.Max == nil {
				a.write(a.of(sl), w)
				a.mark(a.of(sl), ci, 2)
			}
			if res != nil {
				if el, ok := res.Type().Underlying().(*types.Slice); ok && dataType(el.Elem()) && len(c.Args) > 1 {
					if sl, ok := c.Args[1].(*ssa.Slice); ok {
						if al, ok := sl.X.(*ssa.Alloc); ok {
							a.put(a.cell[al], ci, w)
						}
					}
				}
				a.add(a.val, res, a.of(c.Args[0]))
				if el, ok := res.Type().Underlying().(*types.Slice); ok && dataType(el.Elem()) && len(c.Args) > 1 {
					a.add(a.elem, res, union(a.elem[c.Args[0]], a.elemLabels(c.Args[1])))
				}
			}
		case "copy":
			a.write(a.of(c.Args[0]), &witness{fn: f, pos: ci.Pos(), what: "copy into"})
			a.mark(a.of(c.Args[0]), ci, 2)
		case "clear", "delete":
			a.write(a.of(c.Args[0]), &witness{fn: f, pos: ci.Pos(), what: b.Name()})
			a.mark(a.of(c.Args[0]), ci, 2)
		}
		return
	}
	if g := staticCallee(c); g != nil && !inModule(g) {
		n := stdName(g)
		if n == "math/big.NewInt" && res != nil {
			l := label{fn: f, idx: -1 - a.site(ci)}
			a.add(a.val, res, labels{l: true})
			a.mark(labels{l: true}, ci, 4)
			return
		}
		switch {
		case n == "slices.Sort":
			a.sorted(a.of(c.Args[0]), &witness{fn: f, pos: ci.Pos(), what: n})
		case writersOf0[n]:
			a.write(a.of(c.Args[0]), &witness{fn: f, pos: ci.Pos(), what: n})
			if res != nil && dataType(res.Type()) {
				a.add(a.val, res, a.of(c.Args[0]))
			}
		case g.Signature.Recv() != nil && (g.Name() == "Put" || g.Name() == "Add" || g.Name() == "Push"):
			for _, arg := range c.Args[1:] {
				if mi, ok := arg.(*ssa.MakeInterface); ok {
					w := &witness{fn: f, pos: ci.Pos(), what: "kept by " + n}
					a.put(a.of(mi.X), ci, w)
					for l := range a.of(mi.X) {
						a.ext[l] = w
					}
				}
			}
		case strings.HasPrefix(n, "math/big.") && g.Signature.Recv() != nil && isNamedPath(g.Signature.Recv().Type(), "math/big", "Int"):
			if !bigReaders[g.Name()] {
				a.write(a.of(c.Args[0]), &witness{fn: f, pos: ci.Pos(), what: "(*big.Int)." + g.Name()})
				if res != nil && dataType(res.Type()) {
					a.add(a.val, res, a.of(c.Args[0]))
				}
			}
		}
		return
	}
	for _, g := range a.targets(c) {
		args := callArgs(c, g)
		for i, arg := range args {
			ls := a.of(arg)
			if i >= len(g.Params) {
				break
			}
			// a local variable handed over by address
			if al, ok := arg.(*ssa.Alloc); ok {
				ls = union(ls, a.cell[al])
				if st := structOf(deref(al.Type())); st != nil {
					for i := 0; i < st.NumFields(); i++ {
						ls = union(ls, a.cellF[cellKey{al, i}])
					}
				}
			}
			if len(ls) == 0 {
				continue
			}
			for d := 0; d < 3; d++ {
				pl := label{fn: g, idx: i, deep: d}
				if w := a.writes[pl]; w != nil {
					a.write(ls, &witness{fn: f, pos: ci.Pos(), what: "passed to " + rel(g), via: w})
					a.mark(ls, ci, 2)
				}
				if w := a.inside[pl]; w != nil {
					a.put(ls, ci, &witness{fn: f, pos: ci.Pos(), what: "passed to " + rel(g), via: w})
				}
				if w := a.sorts[pl]; w != nil {
					a.sorted(ls, &witness{fn: f, pos: ci.Pos(), what: "passed to " + rel(g), via: w})
				}
				if w := a.appends[pl]; w != nil {
					a.app(ls, &witness{fn: f, pos: ci.Pos(), what: "passed to " + rel(g), via: w})
				}
				for k, w := range a.keeps[pl] {
					a.keepIn(ls, k, &witness{fn: f, pos: ci.Pos(), what: "passed to " + rel(g), via: w})
				}
				ls = deeper(ls)
				if d == 0 {
					ls = union(ls, a.elemLabels(arg))
				}
			}
		}
	}
	if res != nil && dataType(res.Type()) {
		if _, isTuple := res.Type().(*types.Tuple); !isTuple {
			if call, ok := ci.(*ssa.Call); ok {
				a.add(a.val, res, a.result(call, 0))
			}
		}
	}
}

func isNamedPath(t types.Type, path, name string) bool {
	t = deref(t)
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path && n.Obj().Name() == name
}

func (a *aliasing) elemLabels(v ssa.Value) labels {
	if s, ok := v.(*ssa.Slice); ok {
		if al, ok := s.X.(*ssa.Alloc); ok {
			return union(a.cell[al], a.of(v), a.elem[v])
		}
	}
	return union(a.of(v), a.elem[v])
}

func (a *aliasing) targets(c *ssa.CallCommon) []*ssa.Function {
	if g := staticCallee(c); g != nil {
		return []*ssa.Function{canonOf(g)}
	}
	var out []*ssa.Function
	for _, g := range a.p.Targets(c) {
		out = append(out, canonOf(g))
	}
	return out
}

// callArgs are the values bound to the parameters of g.
func callArgs(c *ssa.CallCommon, g *ssa.Function) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

func (a *aliasing) result(c *ssa.Call, i int) labels {
	out := labels{}
	for _, g := range a.targets(&c.Call) {
		args := callArgs(&c.Call, g)
		for l := range a.ret[g][i] {
			if l.idx < 0 {
				// kept by the callee as well
				for k := range a.keeps[l] {
					out[k] = true
				}
				// new data for every call
				if l.fn == g && l.deep == 0 {
					n := label{fn: c.Parent(), idx: -1 - a.site(c)}
					out[n] = true
					a.mark(labels{n: true}, c, 4)
				}
				continue
			}
			if l.fn == g {
				if l.idx < len(args) {
					ls := a.of(args[l.idx])
					for d := 0; d < l.deep; d++ {
						ls = deeper(ls)
						if d == 0 {
							ls = union(ls, a.elemLabels(args[l.idx]))
						}
					}
					for x := range ls {
						out[x] = true
					}
					if al, ok := args[l.idx].(*ssa.Alloc); ok {
						for x := range a.cell[al] {
							out[x] = true
						}
					}
				}
			} else {
				out[l] = true
			}
		}
	}
	return out
}

// fate is how the data behind l is changed: directly, or by way of a field
// that keeps it.
type fate struct {
	a            *aliasing
	app, natural bool // appending into spare capacity, sorting
	seen         map[label]bool
}

func (x *fate) of(l label) *witness {
	if x.seen == nil {
		x.seen = map[label]bool{}
	}
	if x.seen[l] {
		return nil
	}
	x.seen[l] = true
	a := x.a
	if w := a.writes[l]; w != nil {
		return w
	}
	if w := a.sorts[l]; w != nil && x.natural {
		return w
	}
	if x.app {
		if w := a.appends[l]; w != nil {
			return w
		}
	}
	var ks []label
	for k := range a.keeps[l] {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		return ks[i].field < ks[j].field || ks[i].field == ks[j].field && ks[i].deep < ks[j].deep
	})
	for _, k := range ks {
		sub := &fate{a: a, natural: x.natural, seen: x.seen}
		if w := sub.of(k); w != nil {
			y := a.keeps[l][k]
			return &witness{fn: y.fn, pos: y.pos, what: "kept in " + k.field, via: w}
		}
	}
	return nil
}
