package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The forms of a formula: what a symbol of the denotational analysis is known
// to look like.  The bits are lower bounds; shOpq says that the formula comes
// from something the analysis does not know and may have more forms.
const (
	shNNF uint16 = 1 << iota
	shCNF
	shDNF
	shAIG
	shClause // literal, constant or disjunction of literals
	shTerm   // literal, constant or conjunction of literals
	shNotC   // negation of a CNF
	shNotD   // negation of a DNF
	shOpq
)
const shAll = shNNF | shCNF | shDNF | shAIG | shClause | shTerm | shNotC | shNotD

var shNames = map[uint16]string{shNNF: "NNF", shCNF: "CNF", shDNF: "DNF", shAIG: "AIG", shClause: "clause", shTerm: "term", shNotC: "negated CNF", shNotD: "negated DNF"}

func (d *den) bit(names ...string) uint16 {
	var m uint16
	for _, n := range names {
		m |= 1 << d.sort[n]
	}
	return m
}

func (d *den) setShape(st *dst, v dDen, b uint16) {
	if st.shape == nil {
		st.shape = map[int]uint16{}
	}
	st.shape[v.id] = b
	var m uint16 = allSorts
	if b&shNNF != 0 {
		m &= d.bit("SortTrue", "SortFalse", "SortLiteral", "SortAnd", "SortOr")
	}
	if b&shAIG != 0 {
		m &= d.bit("SortTrue", "SortFalse", "SortLiteral", "SortAnd", "SortNot")
	}
	if b&shClause != 0 {
		m &^= d.bit("SortAnd")
	}
	if b&shTerm != 0 {
		m &^= d.bit("SortOr")
	}
	if b&(shNotC|shNotD) != 0 {
		m &= d.bit("SortTrue", "SortFalse", "SortLiteral", "SortNot")
	}
	if n := st.mask(v.id) & m; n != 0 {
		st.sorts[v.id] = n
	}
}

// closeShape adds what follows from the known forms and the possible sorts.
func (d *den) closeShape(b, m uint16) uint16 {
	simple := d.bit("SortTrue", "SortFalse", "SortLiteral")
	for {
		o := b
		if b&shClause != 0 {
			b |= shCNF | shDNF
		}
		if b&shTerm != 0 {
			b |= shCNF | shDNF | shAIG
		}
		if b&(shCNF|shDNF) != 0 {
			b |= shNNF
		}
		and, or := m&d.bit("SortAnd") != 0, m&d.bit("SortOr") != 0
		if b&shCNF != 0 && !and {
			b |= shClause
		}
		if b&shDNF != 0 && !or {
			b |= shTerm
		}
		if b&shNNF != 0 && !and && !or || b&shAIG != 0 && !and && m&d.bit("SortNot") == 0 || m&^simple == 0 {
			b = shAll
		}
		if b == o {
			return b
		}
	}
}

// shapeOf gives the known forms and whether there may be more.
func (d *den) shapeOf(st *dst, v dval) (uint16, bool) {
	x, ok := v.(dDen)
	if !ok {
		return 0, false
	}
	m := st.mask(x.id)
	b, ok := st.shape[x.id]
	if !ok {
		b = shOpq
	}
	c := d.closeShape(b&shAll, m)
	return c, b&shOpq == 0 || c == shAll
}

// shapeOperands hands the forms of a formula down to its operands.
func (d *den) shapeOperands(st *dst, v dDen) {
	b, known := d.shapeOf(st, v)
	m := st.mask(v.id)
	var o uint16
	switch {
	case m == d.bit("SortAnd"):
		if b&shNNF != 0 {
			o |= shNNF
		}
		if b&shAIG != 0 {
			o |= shAIG
		}
		if b&shCNF != 0 {
			o |= shClause
		}
		if b&shTerm != 0 {
			o = shAll
		}
	case m == d.bit("SortOr"):
		if b&shNNF != 0 {
			o |= shNNF
		}
		if b&shDNF != 0 {
			o |= shTerm
		}
		if b&shClause != 0 {
			o = shAll
		}
	case m == d.bit("SortNot"):
		if b&shAIG != 0 {
			o |= shAIG
		}
		if b&shNotC != 0 {
			o |= shNNF | shCNF
		}
		if b&shNotD != 0 {
			o |= shNNF | shDNF
		}
	}
	if !known {
		o |= shOpq
	}
	for _, x := range st.ops[v.id] {
		if y, ok := x.(dDen); ok {
			if o&shAll == shAll {
				st.sorts[y.id] = d.bit("SortLiteral")
			}
			d.setShape(st, y, o)
		}
	}
}

// shapeResult computes the forms of what a method of the factory gives.
func (d *den) shapeResult(st *dst, name string, args []dval, v dval) {
	if s, ok := v.(dStruct); ok && len(s.f) > 0 {
		v = s.f[0]
	}
	r, ok := v.(dDen)
	if !ok {
		return
	}
	if _, ok := st.shape[r.id]; ok {
		return
	}
	if name == "NaryOperator" || name == "BinaryOperator" {
		m := uint16(0)
		switch x := args[0].(type) {
		case dInt:
			m = 1 << x
		case dSort:
			m = st.mask(x.id)
		}
		switch m {
		case d.bit("SortAnd"):
			name = "And"
		case d.bit("SortOr"):
			name = "Or"
		default:
			name = "Implication"
		}
		args = args[1:]
	}
	all := func(l dval) (uint16, bool) {
		es, ok := d.elems(st, l)
		if !ok {
			return 0, false
		}
		b, known := shAll, true
		for _, e := range es {
			c, k := d.shapeOf(st, e)
			b &= c
			known = known && k
		}
		return b, known
	}
	var b uint16
	known := true
	switch name {
	case "Not":
		var c uint16
		c, known = d.shapeOf(st, args[0])
		b = c & shAIG
		for _, x := range [][2]uint16{{shCNF, shNotC}, {shDNF, shNotD}} {
			if c&x[0] != 0 {
				b |= x[1]
			}
			if c&x[1] != 0 {
				b |= x[0]
			}
		}
		if c == shAll {
			b = shAll
		}
	case "Clause":
		b = shNNF | shCNF | shDNF | shClause
	case "Minterm":
		b = shNNF | shCNF | shDNF | shAIG | shTerm
	case "And":
		var c uint16
		c, known = all(args[0])
		b = c & (shNNF | shCNF | shAIG | shTerm)
	case "Or":
		var c uint16
		c, known = all(args[0])
		b = c & (shNNF | shDNF | shClause)
	case "Implication", "Equivalence":
		// may be simplified, but not in general
	case "Verum", "Falsum", "Constant", "Var", "Variable", "Lit", "Literal", "NewAuxVar":
		b = shAll
	default:
		return
	}
	if !known {
		b |= shOpq
	}
	d.setShape(st, r, b)
}

// promise gives the form that a function promises by its name.
func promise(f *ssa.Function) uint16 {
	pk := shortPkg(pkgOf(f))
	if pk != "normalform" && pk != "bdd" || !exported(f) || f.Signature.Recv() != nil || f.Signature.Results().Len() == 0 ||
		!isNamed(f.Signature.Results().At(0).Type(), "formula", "Formula") {
		return 0
	}
	n := f.Name()
	for _, s := range []string{"WithHandler", "Default", "WithBoundary"} {
		if len(n) > len(s) && n[len(n)-len(s):] == s {
			n = n[:len(n)-len(s)]
		}
	}
	if len(n) < 3 {
		return 0
	}
	switch n[len(n)-3:] {
	case "NNF":
		return shNNF
	case "CNF":
		return shCNF
	case "DNF":
		return shDNF
	case "AIG":
		return shAIG
	}
	return 0
}

func mapElem(m ssa.Value) types.Type {
	if t, ok := m.Type().Underlying().(*types.Map); ok {
		return t.Elem()
	}
	return types.Typ[types.Invalid]
}

// cacheForm gives the form that a transformation cache is named after.
func cacheForm(p *Program, entry int64) uint16 {
	for n, v := range enumValues(p, "formula", "TransformationCacheSort") {
		if v != entry {
			continue
		}
		switch {
		case strings.Contains(n, "NNF"):
			return shNNF
		case strings.Contains(n, "CNF"):
			return shCNF
		case strings.Contains(n, "DNF"):
			return shDNF
		case strings.Contains(n, "AIG"):
			return shAIG
		}
	}
	return 0
}

// literalShape: what has the type of a literal is one.
func (d *den) literalShape(st *dst, v dval) {
	if x, ok := v.(dDen); ok {
		st.sorts[x.id] = d.bit("SortLiteral")
		d.setShape(st, x, shAll)
	}
}
