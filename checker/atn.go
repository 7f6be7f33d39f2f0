package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"strconv"
)

// atn is the automaton the generated lexer and parser carry in their source
// as a list of numbers (serialized ATN, version 4).
type atn struct {
	typ   []int // state -> type, 7 is the end of a rule
	rule  []int
	start []int // rule -> state
	tok   []int // rule -> token (lexer)
	sets  [][][2]int
	out   [][]atnEdge
	skip  map[int]bool // lexer: index of an action that drops the token
}

type atnEdge struct {
	to, kind   int // 1 eps 2 range 3 rule 4 predicate 5 atom 6 action 7 set 8 not set 9 any 10 precedence
	a1, a2, a3 int
}

const ruleStop = 7

// serialized finds the number list assigned to serializedATN in a file.
func serialized(p *Program, pkg, file string) []int {
	pk := p.ByPth[pkg]
	if pk == nil {
		return nil
	}
	var out []int
	for _, f := range pk.Syntax {
		if p.SSA.Fset.Position(f.Pos()).Filename != "" && !hasSuffix(p.SSA.Fset.Position(f.Pos()).Filename, file) {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			as, ok := n.(*ast.AssignStmt)
			if !ok || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
				return true
			}
			sel, ok := as.Lhs[0].(*ast.SelectorExpr)
			if !ok || sel.Sel.Name != "serializedATN" {
				return true
			}
			cl, ok := as.Rhs[0].(*ast.CompositeLit)
			if !ok {
				return true
			}
			for _, e := range cl.Elts {
				tv := pk.TypesInfo.Types[e]
				if tv.Value == nil {
					out = nil
					return false
				}
				v, _ := constant.Int64Val(tv.Value)
				out = append(out, int(v))
			}
			return false
		})
	}
	return out
}

func hasSuffix(s, t string) bool { return len(s) >= len(t) && s[len(s)-len(t):] == t }

func decodeATN(d []int) (a *atn, err error) {
	defer func() {
		if r := recover(); r != nil {
			a, err = nil, fmt.Errorf("cannot be decoded: %v", r)
		}
	}()
	pos := 0
	next := func() int { v := d[pos]; pos++; return v }
	if v := next(); v != 4 {
		return nil, fmt.Errorf("version %d", v)
	}
	lexer := next() == 0
	next() // largest token
	a = &atn{skip: map[int]bool{}}
	for n := next(); n > 0; n-- {
		t := next()
		if t == 0 {
			a.typ, a.rule = append(a.typ, 0), append(a.rule, -1)
			continue
		}
		a.typ, a.rule = append(a.typ, t), append(a.rule, next())
		if t == 12 || t == 3 || t == 4 || t == 5 {
			next()
		}
	}
	for i := 0; i < 2; i++ { // non-greedy and precedence states
		for n := next(); n > 0; n-- {
			next()
		}
	}
	for n := next(); n > 0; n-- {
		a.start = append(a.start, next())
		if lexer {
			a.tok = append(a.tok, next())
		}
	}
	for n := next(); n > 0; n-- { // modes
		next()
	}
	for n := next(); n > 0; n-- {
		k := next()
		var iv [][2]int
		if next() != 0 {
			iv = append(iv, [2]int{-1, -1})
		}
		for ; k > 0; k-- {
			lo := next()
			iv = append(iv, [2]int{lo, next()})
		}
		a.sets = append(a.sets, iv)
	}
	a.out = make([][]atnEdge, len(a.typ))
	for n := next(); n > 0; n-- {
		src := next()
		e := atnEdge{to: next(), kind: next(), a1: next(), a2: next(), a3: next()}
		a.out[src] = append(a.out[src], e)
	}
	for n := next(); n > 0; n-- { // decisions
		next()
	}
	if lexer {
		for i, n := 0, next(); i < n; i++ {
			if next() == 6 {
				a.skip[i] = true
			}
			next()
			next()
		}
	}
	if pos != len(d) {
		return nil, fmt.Errorf("%d numbers left over", len(d)-pos)
	}
	return a, nil
}

func (a *atn) accepts(e atnEdge, ch int) bool {
	in := func(iv [][2]int) bool {
		for _, i := range iv {
			if i[0] <= ch && ch <= i[1] {
				return true
			}
		}
		return false
	}
	switch e.kind {
	case 2:
		return e.a1 <= ch && ch <= e.a2
	case 5:
		return e.a3 == 0 && e.a1 == ch
	case 7:
		return in(a.sets[e.a1])
	case 8:
		return !in(a.sets[e.a1])
	case 9:
		return true
	}
	return false
}

// longest is the longest prefix of the text the lexer rule matches.
func (a *atn) longest(rule int, text []rune) (int, bool) {
	best, skip := -1, false
	cur := map[int]bool{}
	skips := map[int]bool{}
	var close func(s int, sk bool, m map[int]bool)
	close = func(s int, sk bool, m map[int]bool) {
		if m[s] {
			return
		}
		m[s] = true
		if sk {
			skips[s] = true
		}
		for _, e := range a.out[s] {
			switch e.kind {
			case 1:
				close(e.to, sk, m)
			case 6:
				close(e.to, sk || a.skip[e.a2], m)
			case 3:
				// fragment rules: not used by this lexer
			}
		}
	}
	close(a.start[rule], false, cur)
	for i := 0; ; i++ {
		for s := range cur {
			if a.typ[s] == ruleStop {
				best, skip = i, skips[s]
			}
		}
		if i == len(text) || len(cur) == 0 {
			return best, skip
		}
		n := map[int]bool{}
		for s := range cur {
			for _, e := range a.out[s] {
				if a.accepts(e, int(text[i])) {
					close(e.to, false, n)
				}
			}
		}
		cur = n
	}
}

type lexeme struct {
	tok  int
	text string
}

// lex: the tokens of a text (longest match, first rule); ok is false if some
// part of the text is no token.
func (a *atn) lex(text string) (out []lexeme, ok bool) {
	rs := []rune(text)
	for len(rs) > 0 {
		best, rule, skip := 0, -1, false
		for r := range a.start {
			if n, sk := a.longest(r, rs); n > best {
				best, rule, skip = n, r, sk
			}
		}
		if rule < 0 {
			return out, false
		}
		if !skip {
			out = append(out, lexeme{a.tok[rule], string(rs[:best])})
		}
		rs = rs[best:]
	}
	return out, true
}

// ---- the grammar ----

// ruleOf: the parser rules that consume a token.
func (a *atn) rulesOf(tok int) []int {
	var out []int
	for r := range a.start {
		if len(a.uses(r, tok)) > 0 {
			out = append(out, r)
		}
	}
	return out
}

// uses: the edges of a rule that consume the token.
func (a *atn) uses(r, tok int) []atnEdge {
	var out []atnEdge
	for s := range a.out {
		if a.rule[s] == r {
			for _, e := range a.out[s] {
				if e.kind != 1 && e.kind != 3 && e.kind != 6 && e.kind != 9 && a.accepts(e, tok) {
					out = append(out, e)
				}
			}
		}
	}
	return out
}

// reach: what can be reached within the rule from a state, without consuming
// a token and entering at most n further rules; the rules entered on the way
// to the end or to an edge for tok are returned.
func (a *atn) within(s, n int, visit func(s int, e *atnEdge, entered []int)) {
	type key struct{ s, n int }
	seen := map[string]bool{}
	var rec func(s, n int, entered []int)
	rec = func(s, n int, entered []int) {
		k := strconv.Itoa(s) + "/" + strconv.Itoa(n) + fmt.Sprint(entered)
		if seen[k] {
			return
		}
		seen[k] = true
		visit(s, nil, entered)
		for i := range a.out[s] {
			e := a.out[s][i]
			switch e.kind {
			case 1, 6, 10, 4:
				rec(e.to, n, entered)
			case 3:
				// target of a rule edge is the state after the rule
				if n > 0 {
					rec(e.to, n-1, append(append([]int{}, entered...), e.a2))
				}
			default:
				visit(s, &e, entered)
			}
		}
	}
	rec(s, n, nil)
}

// sides: the rules an operand left and right of the token in rule r is parsed
// by.
func (a *atn) sides(r, tok int) (left, right map[int]bool) {
	left, right = map[int]bool{}, map[int]bool{}
	for s := range a.out {
		if a.rule[s] != r {
			continue
		}
		for _, e := range a.out[s] {
			if e.kind == 3 {
				// left: from after the rule the token is the next one
				a.within(e.to, 0, func(_ int, t *atnEdge, _ []int) {
					if t != nil && a.accepts(*t, tok) {
						left[e.a2] = true
					}
				})
			} else if e.kind != 1 && e.kind != 6 && a.accepts(e, tok) {
				a.within(e.to, 1, func(_ int, _ *atnEdge, in []int) {
					if len(in) == 1 {
						right[in[0]] = true
					}
				})
			}
		}
	}
	return
}

// units: the rules that can stand for r alone (r itself included).
func (a *atn) units(r int) map[int]bool {
	out := map[int]bool{r: true}
	work := []int{r}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		a.within(a.start[x], 1, func(s int, e *atnEdge, in []int) {
			if e == nil && a.typ[s] == ruleStop && a.rule[s] == x && len(in) == 1 && !out[in[0]] {
				out[in[0]] = true
				work = append(work, in[0])
			}
		})
	}
	return out
}
