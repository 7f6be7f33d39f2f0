package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// fieldKey names a struct field program-wide: pkg.Type.field.
func fieldKey(t types.Type, i int) string {
	t = deref(t)
	st := structOf(t)
	if st == nil || i >= st.NumFields() {
		return ""
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		n = n.Origin()
		p := ""
		if n.Obj().Pkg() != nil {
			p = shortPkg(n.Obj().Pkg())
		}
		return p + "." + n.Obj().Name() + "." + st.Field(i).Name()
	}
	return "." + st.Field(i).Name()
}

// Mods is, per function, the set of fields the function or anything it can
// call may write ("pkg.T.f"), or whose elements it may write ("pkg.T.f[]").
type Mods struct {
	p    *Program
	own  map[*ssa.Function]map[string]bool
	full map[*ssa.Function]map[string]bool
}

func (p *Program) mods() *Mods {
	if p.modsets != nil {
		return p.modsets
	}
	m := &Mods{p, map[*ssa.Function]map[string]bool{}, map[*ssa.Function]map[string]bool{}}
	p.modsets = m
	for _, f := range p.Funcs {
		m.own[f] = ownMods(f)
	}
	return m
}

// addrFieldKey is the field an address denotes; elem when it is an element
// of the slice/array/map held in that field.
func addrFieldKey(a ssa.Value, d int) (string, bool) {
	if d > 8 {
		return "", false
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return fieldKey(x.X.Type(), x.Field), false
	case *ssa.IndexAddr:
		k, _ := valueFieldKey(x.X, d+1)
		return k, true
	case *ssa.Phi, *ssa.ChangeType, *ssa.Convert:
		return valueFieldKey(a, d+1)
	}
	return "", false
}

// valueFieldKey: the field a (slice, map, pointer) value was loaded from.
func valueFieldKey(v ssa.Value, d int) (string, bool) {
	if d > 8 {
		return "", false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		k, e := addrFieldKey(x.X, d+1)
		return k, e
	case *ssa.FieldAddr:
		return fieldKey(x.X.Type(), x.Field), false
	case *ssa.Field:
		return fieldKey(x.X.Type(), x.Field), false
	case *ssa.Slice:
		return valueFieldKey(x.X, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if k, el := valueFieldKey(e, d+2); k != "" {
				return k, el
			}
		}
	}
	return "", false
}

func ownMods(f *ssa.Function) map[string]bool {
	m := map[string]bool{}
	add := func(k string, elem bool) {
		if k == "" {
			return
		}
		if elem {
			k += "[]"
		}
		m[k] = true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				k, e := addrFieldKey(x.Addr, 0)
				add(k, e)
			case *ssa.MapUpdate:
				k, _ := valueFieldKey(x.Map, 0)
				add(k, true)
			case *ssa.FieldAddr:
				// address escapes as an argument: counts as a write
				for _, r := range *x.Referrers() {
					if ci, ok := r.(ssa.CallInstruction); ok {
						for _, a := range ci.Common().Args {
							if a == x {
								// a method on an embedded struct value writes its own fields, which are
								// counted there; a helper that takes *[]T writes the field
								if structOf(deref(x.Type())) == nil {
									add(fieldKey(x.X.Type(), x.Field), false)
								}
							}
						}
					}
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				c := ci.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "clear", "copy":
						k, _ := valueFieldKey(c.Args[0], 0)
						add(k, true)
					}
				}
			}
		}
	}
	return m
}

// Of is the transitive set of f.
func (m *Mods) Of(f *ssa.Function) map[string]bool {
	if s, ok := m.full[f]; ok {
		return s
	}
	s := map[string]bool{}
	for g := range m.p.Reach(f) {
		for k := range m.own[g] {
			s[k] = true
		}
	}
	m.full[f] = s
	return s
}
