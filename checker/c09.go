package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C09"] = checkC09 }

// C09: a remembered answer is only given to the question it was computed for.

func checkC09(c *Ctx) {
	c.Rule("same-key", "what is remembered is remembered under the very question it is looked up with", 18)
	c.Rule("hit", "a hit returns what was remembered, and only a hit does", 16)
	c.Rule("same-answer", "the answer that is remembered is the answer that is given", 16)
	c.Rule("covered", "everything the answer depends on is part of the question", 16)
	c.Rule("one-question", "a cache sort belongs to one question only", 8)
	c.Rule("finished", "the result of a computation that was stopped is not remembered", 4)
	c.Rule("interned", "a formula found in the tables of the factory is the one asked for: all parts are compared, and it is entered under what it was searched with", 8)
	c.Rule("reset", "when BDD nodes are freed or levels change, the operator caches are emptied", 4)
	if c.fixture {
		return
	}
	p := c.P
	k := &caching{c: c, p: p}
	k.factory()
	k.maps()
	k.entries()
	k.finished()
	k.interning()
	k.resets()
}

type caching struct {
	c    *Ctx
	p    *Program
	puts []ssa.Instruction // everything that remembers an answer
	// the parts of an entry that every question is compared with
	asked map[string]bool
}

// ---------------------------------------------------------------- terms

// keyC is the structure of a value, as far as it is a function of the
// parameters.
func (k *caching) keyC(v ssa.Value) string { return k.keyD(v, 0) }

func (k *caching) keyD(v ssa.Value, d int) string {
	if v == nil {
		return "-"
	}
	if d > 10 {
		return fmt.Sprintf("%p", v)
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return x.Value.ExactString()
	case *ssa.Global:
		return x.String()
	case *ssa.MakeInterface:
		return k.keyD(x.X, d+1)
	case *ssa.ChangeInterface:
		return k.keyD(x.X, d+1)
	case *ssa.ChangeType:
		return k.keyD(x.X, d+1)
	case *ssa.Convert:
		return k.keyD(x.X, d+1)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return k.keyD(x.X, d+1)
		}
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return k.keyD(b, d+1)
		}
	case *ssa.Field:
		return k.keyD(x.X, d+1) + "." + fieldNm(x.X.Type(), x.Field)
	case *ssa.FieldAddr:
		return k.keyD(x.X, d+1) + "." + fieldNm(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		return k.keyD(x.X, d+1) + "[" + k.keyD(x.Index, d+1) + "]"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.Alloc:
				if s := soleStore(a); s != nil {
					return k.keyD(s, d+1)
				}
				if parts := k.literal(a, d); parts != nil {
					return "{" + strings.Join(parts, ",") + "}"
				}
				return fmt.Sprintf("%p", v)
			case *ssa.FieldAddr, *ssa.Global, *ssa.FreeVar:
				return k.keyD(a, d+1)
			case *ssa.IndexAddr:
				return k.keyD(a, d+1)
			}
			return fmt.Sprintf("%p", v)
		}
		return x.Op.String() + k.keyD(x.X, d+1)
	case *ssa.BinOp:
		l, r := k.keyD(x.X, d+1), k.keyD(x.Y, d+1)
		switch x.Op {
		case token.ADD, token.MUL, token.OR, token.AND, token.XOR, token.EQL, token.NEQ:
			if r < l {
				l, r = r, l
			}
		}
		return "(" + l + x.Op.String() + r + ")"
	case *ssa.Extract:
		return k.keyD(x.Tuple, d+1) + fmt.Sprintf("#%d", x.Index)
	case *ssa.Call:
		if g := staticCallee(&x.Call); g != nil && inModule(g) && len(k.p.mods().Of(canonOf(g))) == 0 && len(g.Params) > 0 {
			var s []string
			for _, a := range x.Call.Args {
				s = append(s, k.keyD(a, d+1))
			}
			return rel(canonOf(g)) + "(" + strings.Join(s, ",") + ")"
		}
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q == x {
				return fmt.Sprintf("p%d", i)
			}
		}
	}
	return fmt.Sprintf("%p", v)
}

func fieldNm(t types.Type, i int) string {
	st := structOf(deref(t))
	if st == nil || i >= st.NumFields() {
		return "?"
	}
	return st.Field(i).Name()
}

// literal: the fields of a composite literal held in a local variable.
func (k *caching) literal(a *ssa.Alloc, d int) []string {
	st := structOf(deref(a.Type()))
	if st == nil {
		return nil
	}
	vs := literalFields(a)
	if vs == nil {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, k.keyD(vs[i], d+1))
	}
	return out
}

// literalFields: the values of the fields, each stored once.
func literalFields(a *ssa.Alloc) []ssa.Value {
	st := structOf(deref(a.Type()))
	if st == nil || a.Referrers() == nil {
		return nil
	}
	out := make([]ssa.Value, st.NumFields())
	n := 0
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			for _, r2 := range *x.Referrers() {
				if s, ok := r2.(*ssa.Store); ok && s.Addr == x {
					if out[x.Field] != nil {
						return nil
					}
					out[x.Field] = s.Val
					n++
				}
			}
		case *ssa.Store:
			if x.Addr == ssa.Value(a) {
				return nil
			}
		}
	}
	if n == 0 {
		return nil
	}
	return out
}

// strip removes what does not change the answer: conversions, assertions,
// copies of a number, the immutable view of a set.
func (k *caching) strip(v ssa.Value) ssa.Value {
	for n := 0; n < 12; n++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.TypeAssert:
			if x.CommaOk {
				return v
			}
			v = x.X
		case *ssa.UnOp:
			a, ok := x.X.(*ssa.Alloc)
			if x.Op != token.MUL || !ok {
				return v
			}
			s := soleStore(a)
			if s == nil {
				return v
			}
			v = s
		case *ssa.Call:
			g := staticCallee(&x.Call)
			if g == nil {
				return v
			}
			n := stdName(g)
			switch {
			case strings.HasPrefix(n, "math/big.") && g.Name() == "Set" && len(x.Call.Args) == 2:
				v = x.Call.Args[1]
			case n == "slices.Clone" || n == "maps.Clone":
				v = x.Call.Args[0]
			case len(x.Call.Args) == 1 && inModule(g) && strings.EqualFold(g.Name(), "clone"):
				v = x.Call.Args[0]
			default:
				return v
			}
		default:
			return v
		}
	}
	return v
}

func (k *caching) same(a, b ssa.Value) bool {
	a, b = k.strip(a), k.strip(b)
	if a == b {
		return true
	}
	x, y := k.keyC(a), k.keyC(b)
	return x == y && !strings.HasPrefix(x, "0x")
}

// holdsAt: the value is decided on every way to the block, by a branch on it.
func (k *caching) holdsAt(cond string, b *ssa.BasicBlock) (bool, bool) {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(id.Instrs) == 0 {
			continue
		}
		ifi, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		v := ifi.Cond
		neg := false
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			v, neg = u.X, true
		}
		if k.keyC(v) != cond {
			continue
		}
		for i, s := range id.Succs {
			if s == d && len(d.Preds) == 1 {
				return (i == 0) != neg, true
			}
			_ = s
		}
	}
	return false, false
}

// ---------------------------------------------------------------- caches of the factory

type cacheSite struct {
	fn   *ssa.Function
	call *ssa.Call
	fam  string
	set  bool
	sort ssa.Value
	key  ssa.Value
	val  ssa.Value // set: the value; lookup: nil
}

// wrapper: the function passes its parameters on to the cache.
type cacheWrapper struct {
	fam            string
	set            bool
	sort, key, val int // parameter indices, -1: a constant sort
	sortConst      ssa.Value
}

func paramIndex(v ssa.Value) int {
	for n := 0; n < 6; n++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Parameter:
			for i, q := range x.Parent().Params {
				if q == x {
					return i
				}
			}
		}
		break
	}
	return -1
}

func (k *caching) siteOf(call *ssa.Call, ws map[*ssa.Function]cacheWrapper) *cacheSite {
	g := staticCallee(&call.Call)
	if g == nil {
		return nil
	}
	g = canonOf(g)
	w, ok := ws[g]
	if !ok {
		return nil
	}
	s := &cacheSite{fn: call.Parent(), call: call, fam: w.fam, set: w.set, key: call.Call.Args[w.key], sort: w.sortConst}
	if w.sort >= 0 {
		s.sort = call.Call.Args[w.sort]
	}
	if w.set {
		s.val = call.Call.Args[w.val]
	}
	return s
}

func (k *caching) factorySites() []*cacheSite {
	ws := map[*ssa.Function]cacheWrapper{}
	for _, fam := range []string{"Transformation", "Predicate", "Function"} {
		if g := k.p.Func("formula", "Lookup"+fam+"Cache"); g != nil {
			ws[g] = cacheWrapper{fam: fam, sort: 1, key: 2}
		}
		if g := k.p.Func("formula", "Set"+fam+"Cache"); g != nil {
			ws[g] = cacheWrapper{fam: fam, set: true, sort: 1, key: 2, val: 3}
		}
	}
	base := len(ws)
	var sites []*cacheSite
	for round := 0; round < 3; round++ {
		sites = nil
		n := len(ws)
		for _, f := range k.p.Funcs {
			if _, ok := ws[f]; ok && base == 6 && exported(f) && shortPkg(pkgOf(f)) == "formula" && strings.HasSuffix(f.Name(), "Cache") {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					s := k.siteOf(call, ws)
					if s == nil {
						continue
					}
					if w, ok := k.wrap(f, s); ok {
						if _, has := ws[f]; !has {
							ws[f] = w
						}
						continue
					}
					sites = append(sites, s)
				}
			}
		}
		if len(ws) == n {
			break
		}
	}
	return sites
}

// wrap: f only hands its parameters to the cache.
func (k *caching) wrap(f *ssa.Function, s *cacheSite) (cacheWrapper, bool) {
	w := cacheWrapper{fam: s.fam, set: s.set, sort: paramIndex(s.sort), key: paramIndex(s.key)}
	if w.key < 0 || exported(f) {
		return w, false
	}
	if w.sort < 0 {
		if _, ok := s.sort.(*ssa.Const); !ok {
			return w, false
		}
		w.sortConst = s.sort
	}
	if s.set {
		w.val = paramIndex(s.val)
		return w, w.val >= 0 && w.val != w.key
	}
	// a lookup whose result is returned as it is
	if f.Signature.Results().Len() != 2 || len(f.Blocks) > 2 {
		return w, false
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			x, ok := k.strip(r.Results[0]).(*ssa.Extract)
			if ok && x.Tuple == ssa.Value(s.call) && x.Index == 0 {
				return w, true
			}
		}
	}
	return w, false
}

func extractOf(c ssa.Value, i int) *ssa.Extract {
	for _, r := range *c.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == i {
			return x
		}
	}
	return nil
}

// sortConsts: the constants a cache sort can be, with phis resolved.
func sortConsts(v ssa.Value, d int) []string {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			return []string{x.Value.ExactString()}
		}
	case *ssa.Phi:
		if d > 3 {
			return nil
		}
		var out []string
		for _, e := range x.Edges {
			s := sortConsts(e, d+1)
			if s == nil {
				return nil
			}
			out = append(out, s...)
		}
		return out
	case *ssa.Call:
		// a selecting helper
		g := staticCallee(&x.Call)
		if g == nil || !inModule(g) || d > 3 {
			return nil
		}
		var out []string
		for _, b := range canonOf(g).Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				s := sortConsts(r.Results[0], d+1)
				if s == nil {
					return nil
				}
				out = append(out, s...)
			}
		}
		return out
	}
	return nil
}

func (k *caching) factory() {
	c, p := k.c, k.p
	sites := k.factorySites()
	byFn := map[*ssa.Function][]*cacheSite{}
	var fns []*ssa.Function
	for _, s := range sites {
		if byFn[s.fn] == nil {
			fns = append(fns, s.fn)
		}
		byFn[s.fn] = append(byFn[s.fn], s)
	}
	setters := map[string]map[*ssa.Function]bool{} // fam/sort -> functions that compute and remember
	readers := map[string]map[*ssa.Function]bool{}
	names := map[string]string{}
	for _, f := range fns {
		var looks, sets []*cacheSite
		for _, s := range byFn[f] {
			if s.set {
				sets = append(sets, s)
			} else {
				looks = append(looks, s)
			}
		}
		for _, s := range byFn[f] {
			for _, x := range sortConsts(s.sort, 0) {
				id := s.fam + " " + x
				names[id] = p.enumName(s.sort.Type(), x)
				m := readers
				if s.set {
					m = setters
					if len(looks) == 0 && k.selfEvident(s) {
						continue
					}
				}
				if m[id] == nil {
					m[id] = map[*ssa.Function]bool{}
				}
				m[id][f] = true
			}
		}
		for i, s := range sets {
			key := fmt.Sprintf("%s %s %d", rel(f), s.fam, i)
			pos := p.pos(s.call.Pos())
			if len(looks) == 0 {
				continue
			}
			var l *cacheSite
			for _, x := range looks {
				if x.fam == s.fam && k.keyC(x.sort) == k.keyC(s.sort) {
					l = x
				}
			}
			if l == nil {
				c.Bad("same-key", key, pos, "the answer is remembered under another cache than the one that was asked")
				continue
			}
			c.Cond(k.keyC(l.key) == k.keyC(s.key), "same-key", key, pos, "the answer is remembered for another formula than the one that was looked up")
			k.puts = append(k.puts, s.call)
			// the answer
			bad := ""
			for _, b := range f.Blocks {
				r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || !after(s.call, r) || len(r.Results) == 0 || k.handsBack(s, r.Results[0]) {
					continue
				}
				if !k.same(r.Results[0], s.val) && !k.phiSame(r, s) {
					bad = "the function returns something else than what it has remembered (" + p.pos(r.Pos()) + ")"
				}
			}
			c.Cond(bad == "", "same-answer", key, pos, bad)
			// what it depends on
			k.coverage(f, l, s, key)
		}
		for i, l := range looks {
			key := fmt.Sprintf("%s %s %d", rel(f), l.fam, i)
			k.hit(f, l, key, sets)
			if len(sets) == 0 {
				k.readerMiss(f, l, key, byFn)
			}
		}
	}
	var ids []string
	for id := range names {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		var fs []string
		for f := range setters[id] {
			fs = append(fs, rel(f))
		}
		sort.Strings(fs)
		c.Cond(len(fs) <= 1, "one-question", names[id], "", "answers to different questions are remembered in the same cache: "+strings.Join(fs, ", "))
		for f := range readers[id] {
			ok := setters[id][f] || len(fs) == 0
			for g := range setters[id] {
				if callsAny(f, g) {
					ok = true
				}
			}
			c.Cond(ok, "one-question", names[id]+" in "+rel(f), p.pos(f.Pos()), "looks up answers that another function has computed: "+strings.Join(fs, ", "))
		}
	}
}

// selfEvident: the remembered answer is the formula itself or a constant.
func (k *caching) selfEvident(s *cacheSite) bool {
	v := k.strip(s.val)
	if _, ok := v.(*ssa.Const); ok {
		return true
	}
	return k.keyC(v) == k.keyC(s.key)
}

func callsAny(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if h := staticCallee(ci.Common()); h != nil && canonOf(h) == g {
					return true
				}
			}
		}
	}
	return false
}

func (p *Program) enumName(t types.Type, val string) string {
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if cn, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(cn.Type(), t) && cn.Val().ExactString() == val {
				return n
			}
		}
	}
	return t.String() + " " + val
}

// after: b can run after a.
func after(a, b ssa.Instruction) bool { return reachesAfter(a, b, nil) }

// phiSame: the returned value is a phi that is the stored value on every way
// that passes the store.
func (k *caching) phiSame(r *ssa.Return, s *cacheSite) bool {
	ph, ok := k.strip(r.Results[0]).(*ssa.Phi)
	if !ok {
		return false
	}
	passed := false
	for i, e := range ph.Edges {
		pred := ph.Block().Preds[i]
		behind := pred == s.call.Block() || after(s.call, pred.Instrs[len(pred.Instrs)-1])
		if !k.same(e, s.val) && behind {
			return false
		}
		passed = passed || behind
	}
	return passed
}

// handsBack: the helper that remembers the value also returns it.
func (k *caching) handsBack(s *cacheSite, v ssa.Value) bool {
	call, ok := k.strip(v).(*ssa.Call)
	if !ok || call != s.call {
		return false
	}
	g := staticCallee(&call.Call)
	if g == nil || !inModule(g) {
		return false
	}
	g = canonOf(g)
	for _, b := range g.Blocks {
		if r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isRet {
			i := paramIndex(k.strip(r.Results[0]))
			if i < 0 || i >= len(call.Call.Args) || !k.same(call.Call.Args[i], s.val) {
				return false
			}
		}
	}
	return true
}

// hit: the looked up value is used only where it was found, and what is
// returned then is that value.
func (k *caching) hit(f *ssa.Function, l *cacheSite, key string, sets []*cacheSite) {
	c, p := k.c, k.p
	v, ok := extractOf(l.call, 0), extractOf(l.call, 1)
	pos := p.pos(l.call.Pos())
	if v == nil {
		return
	}
	if ok == nil {
		c.Bad("hit", key, pos, "the looked up value is used without asking whether it was found")
		return
	}
	cond := k.keyC(ok)
	bad := ""
	for _, r := range *v.Referrers() {
		if _, dbg := r.(*ssa.DebugRef); dbg {
			continue
		}
		if ph, isPhi := r.(*ssa.Phi); isPhi {
			for i, e := range ph.Edges {
				if e != ssa.Value(v) {
					continue
				}
				if !k.edgeHolds(cond, ph.Block().Preds[i], ph.Block()) && phUsed(ph) {
					bad = "the looked up value is used where it was not found (" + p.pos(ph.Pos()) + ")"
				}
			}
			continue
		}
		if ret, isRet := r.(*ssa.Return); isRet {
			// returned together with the flag
			pass := false
			for _, x := range ret.Results {
				if k.strip(x) == ssa.Value(ok) {
					pass = true
				}
			}
			if pass {
				continue
			}
		}
		if t, known := k.holdsAt(cond, r.Block()); !known || !t {
			bad = "the looked up value is used where it was not found (" + p.pos(r.Pos()) + ")"
		}
	}
	if len(sets) > 0 {
		n := 0
		for _, b := range f.Blocks {
			r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !isRet {
				continue
			}
			if t, known := k.holdsAt(cond, b); known && t {
				n++
				if x := k.strip(r.Results[0]); x != ssa.Value(v) {
					bad = "a hit is answered with something else than what was remembered (" + p.pos(r.Pos()) + ")"
				}
			}
		}
	}
	c.Cond(bad == "", "hit", key, pos, bad)
}

func phUsed(ph *ssa.Phi) bool {
	for _, r := range *ph.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			return true
		}
	}
	return false
}

// edgeHolds: the condition is true on the edge.
func (k *caching) edgeHolds(cond string, from, to *ssa.BasicBlock) bool {
	if len(from.Instrs) > 0 {
		if ifi, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && k.keyC(ifi.Cond) == cond {
			return from.Succs[0] == to && from.Succs[1] != to
		}
	}
	t, known := k.holdsAt(cond, from)
	return known && t
}

// readerMiss: a function that looks up but does not remember computes a miss
// by the function that remembers, for the same formula.
func (k *caching) readerMiss(f *ssa.Function, l *cacheSite, key string, byFn map[*ssa.Function][]*cacheSite) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := staticCallee(&call.Call)
			if g == nil {
				continue
			}
			g = canonOf(g)
			for _, s := range byFn[g] {
				if !s.set || s.fam != l.fam || k.keyC(s.sort) != k.keyC(l.sort) {
					continue
				}
				i := paramIndex(s.key)
				if i < 0 || i >= len(call.Call.Args) {
					continue
				}
				k.c.Cond(k.keyC(call.Call.Args[i]) == k.keyC(l.key), "same-key", key+" miss", k.p.pos(call.Pos()), "a miss is computed for another formula than the one that was looked up")
			}
		}
	}
}

// coverage: parameters other than the formula, the factory and the handler
// either choose the cache or guard both sides in the same way; of the
// receiver only the factory is used.
func (k *caching) coverage(f *ssa.Function, l, s *cacheSite, key string) {
	bad := ""
	kp := paramIndex(s.key)
	for i, prm := range f.Params {
		if i == kp {
			continue
		}
		if i == 0 && f.Signature.Recv() != nil {
			if kp >= 0 {
				if u := k.receiverUse(f); u != "" {
					bad = "the answer also depends on " + u
				}
			}
			continue
		}
		t := prm.Type()
		if isNamed(t, "formula", "Factory") || isNamed(t, "handler", "Handler") || implementsHandler(t) || len(*prm.Referrers()) == 0 {
			continue
		}
		if k.selects(s.sort, prm, 0) {
			continue
		}
		cond := k.keyC(prm)
		a, ka := k.holdsAt(cond, l.call.Block())
		b, kb := k.holdsAt(cond, s.call.Block())
		if ka && kb && a == b {
			continue
		}
		if types.Identical(t.Underlying(), types.Typ[types.Bool]) || !isSliceOfFormula(t) {
			bad = fmt.Sprintf("the answer also depends on the parameter %s, which is not part of the question", prm.Name())
		}
	}
	k.c.Cond(bad == "", "covered", key, k.p.pos(s.call.Pos()), bad)
}

func isSliceOfFormula(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), "formula", "Formula")
}

// selects: the parameter decides which cache is used, differently for its
// values.
func (k *caching) selects(v ssa.Value, prm *ssa.Parameter, d int) bool {
	if d > 3 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return x == prm
	case *ssa.Phi:
		id := x.Block().Idom()
		if id == nil {
			return false
		}
		ifi, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		on := ifi.Cond
		if u, ok := on.(*ssa.UnOp); ok && u.Op == token.NOT {
			on = u.X
		}
		if on != ssa.Value(prm) {
			return false
		}
		seen := map[string]bool{}
		for _, e := range x.Edges {
			s := k.keyC(e)
			if seen[s] {
				return false
			}
			seen[s] = true
		}
		return true
	case *ssa.Call:
		for i, a := range x.Call.Args {
			g := staticCallee(&x.Call)
			if a == ssa.Value(prm) && g != nil && inModule(g) && i < len(canonOf(g).Params) {
				return true
			}
		}
	}
	return false
}

// receiverUse: a field of the receiver the function or its helpers read that
// is neither the factory nor the formula.
func (k *caching) receiverUse(f *ssa.Function) string {
	if len(f.Params) == 0 || f.Params[0].Referrers() == nil {
		return ""
	}
	for _, r := range *f.Params[0].Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		st := structOf(deref(fa.X.Type()))
		t := st.Field(fa.Field).Type()
		if isNamed(t, "formula", "Factory") {
			continue
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			continue
		}
		return "the field " + st.Field(fa.Field).Name() + " of its receiver"
	}
	return ""
}

// ---------------------------------------------------------------- memo tables

// maps: a table that is looked up and filled by the same function, which
// returns what it finds and what it enters.
func (k *caching) maps() {
	c, p := k.c, k.p
	for _, f := range p.Funcs {
		if f.Signature.Results().Len() == 0 {
			continue
		}
		type look struct {
			table, key string
			kv         ssa.Value
			v, ok      ssa.Value
			in         ssa.Instruction
		}
		var looks []look
		type ent struct {
			table, key string
			val        ssa.Value
			in         ssa.Instruction
		}
		var ents []ent
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Lookup:
					if x.CommaOk {
						if v, ok := extractOf(x, 0), extractOf(x, 1); v != nil && ok != nil {
							looks = append(looks, look{k.keyC(x.X), k.keyC(x.Index), x.Index, v, ok, in})
						}
					}
				case *ssa.MapUpdate:
					ents = append(ents, ent{k.keyC(x.Map), k.keyC(x.Key), x.Value, in})
				case *ssa.Call:
					g := staticCallee(&x.Call)
					if g == nil || inModule(g) || g.Signature.Recv() == nil || len(x.Call.Args) < 2 {
						continue
					}
					if g.Name() == "Get" && len(x.Call.Args) == 2 {
						if v, ok := extractOf(x, 0), extractOf(x, 1); v != nil && ok != nil {
							looks = append(looks, look{k.keyC(x.Call.Args[0]), k.keyC(k.strip(x.Call.Args[1])), k.strip(x.Call.Args[1]), v, ok, in})
						}
					}
					if g.Name() == "Put" && len(x.Call.Args) == 3 {
						ents = append(ents, ent{k.keyC(x.Call.Args[0]), k.keyC(k.strip(x.Call.Args[1])), x.Call.Args[2], in})
					}
				}
			}
		}
		n := 0
		for _, l := range looks {
			if !k.returnsOnHit(f, l.v, l.ok) {
				continue
			}
			for _, e := range ents {
				if e.table != l.table || !after(l.in, e.in) {
					continue
				}
				if !k.returned(f, e.val, e.in) {
					continue
				}
				key := fmt.Sprintf("%s table %d", rel(f), n)
				n++
				k.puts = append(k.puts, e.in)
				c.Cond(e.key == l.key, "same-key", key, p.pos(e.in.Pos()), "the result is entered under another key than it was looked up with")
				c.Cond(k.foundOnly(l.v, l.ok), "hit", key, p.pos(l.in.Pos()), "the looked up value is used where it was not found")
			}
		}
	}
}

// finished: no way from a request to stop to the remembering of an answer.
func (k *caching) finished() {
	a := newCanc(k.p)
	conv := a.conventions()
	byFn := map[*ssa.Function][]ssa.Instruction{}
	var fns []*ssa.Function
	for _, in := range k.puts {
		f := in.Parent()
		if byFn[f] == nil {
			fns = append(fns, f)
		}
		byFn[f] = append(byFn[f], in)
	}
	for _, f := range fns {
		n := map[string]int{}
		for _, src := range a.sources(f, conv) {
			if !src.poll && isAccessor(src.call) || resultVal(src.call, src.idx) == nil {
				continue
			}
			name := "poll"
			if !src.poll {
				name = calleeName(&src.call.Call)
			}
			n[name]++
			key := fmt.Sprintf("%s: %s %d", rel(f), name, n[name])
			bad := ""
			a.startAfter(f, src, func(in ssa.Instruction, e *env) {
				for _, put := range byFn[f] {
					if in == put {
						bad = "the result is remembered at " + k.p.pos(put.Pos()) + " although the computation was stopped"
					}
				}
			})
			k.c.Cond(bad == "", "finished", key, k.p.pos(src.call.Pos()), bad)
		}
	}
}

func (k *caching) foundOnly(v, ok ssa.Value) bool {
	cond := k.keyC(ok)
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			for i, e := range x.Edges {
				if e == v && !k.edgeHolds(cond, x.Block().Preds[i], x.Block()) {
					return false
				}
			}
		default:
			if t, known := k.holdsAt(cond, r.Block()); !known || !t {
				return false
			}
		}
	}
	return true
}

// returnsOnHit: where the value was found, it is what the function returns.
func (k *caching) returnsOnHit(f *ssa.Function, v, ok ssa.Value) bool {
	for _, b := range f.Blocks {
		r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isRet || len(r.Results) == 0 {
			continue
		}
		if k.reachesValue(r.Results[0], v, 0) {
			return true
		}
	}
	return false
}

func (k *caching) reachesValue(x, v ssa.Value, d int) bool {
	x = k.strip(x)
	if x == v {
		return true
	}
	if ph, ok := x.(*ssa.Phi); ok && d < 4 {
		for _, e := range ph.Edges {
			if k.reachesValue(e, v, d+1) {
				return true
			}
		}
	}
	return false
}

func (k *caching) returned(f *ssa.Function, v ssa.Value, at ssa.Instruction) bool {
	for _, b := range f.Blocks {
		r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if isRet && len(r.Results) > 0 && (after(at, r) || at.Block() == b) && k.reachesValue(r.Results[0], k.strip(v), 0) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- entries of the operator caches

type entrySite struct {
	fn      *ssa.Function
	entry   ssa.Value
	table   string
	compare map[string]ssa.Value // field -> value on a hit
	stored  map[string]ssa.Value
	res     string // the field that holds the answer
	hitRet  []*ssa.Return
	conds   []*ssa.BinOp
}

// entries: a slot of a fixed-size cache, which is compared with the question
// and overwritten with the new one.
func (k *caching) entries() {
	c, p := k.c, k.p
	var sites []*entrySite
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				st := structOf(deref(call.Type()))
				if st == nil || !isPtr(call.Type()) || st.NumFields() < 3 {
					continue
				}
				if s := k.entryOf(f, call); s != nil {
					sites = append(sites, s)
				}
			}
		}
	}
	for i, s := range sites {
		if i == 0 {
			k.asked = map[string]bool{}
			for fd := range s.compare {
				k.asked[fd] = true
			}
		}
		for fd := range k.asked {
			if _, ok := s.compare[fd]; !ok {
				delete(k.asked, fd)
			}
		}
		f := s.fn
		key := fmt.Sprintf("%s entry", rel(f))
		_ = i
		pos := p.pos(s.entry.Pos())
		// the question is compared as it is stored
		var bad []string
		for _, fd := range sorted(s.stored) {
			if fd == s.res {
				continue
			}
			w, ok := s.compare[fd]
			if !ok {
				bad = append(bad, "the part "+fd+" of the question is stored but not compared on a hit")
			} else if k.keyC(w) != k.keyC(s.stored[fd]) {
				bad = append(bad, "the part "+fd+" of the question is stored with another value than it is compared with")
			}
		}
		for _, fd := range sorted(s.compare) {
			if _, ok := s.stored[fd]; !ok {
				bad = append(bad, "the part "+fd+" of the question is compared but not stored")
			}
		}
		c.Cond(len(bad) == 0, "same-key", key, pos, strings.Join(bad, "; "))
		// the answer
		bad = nil
		for _, r := range s.hitRet {
			if fd, ok := k.entryField(r.Results[0], s.entry); !ok || fd != s.res {
				bad = append(bad, "a hit is answered with something else than the stored answer ("+p.pos(r.Pos())+")")
			}
			for _, cond := range s.conds {
				if missed(cond, r.Block()) {
					bad = append(bad, "the stored answer is given although a part of the question differs ("+p.pos(cond.Pos())+")")
				}
			}
		}
		c.Cond(len(bad) == 0, "hit", key, pos, strings.Join(bad, "; "))
		bad = nil
		for _, b := range f.Blocks {
			r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !isRet || !k.dominatedByStore(s, b) {
				continue
			}
			if !k.same(r.Results[0], s.stored[s.res]) && !k.phiFrom(r.Results[0], s) {
				bad = append(bad, "the function returns something else than what it has stored ("+p.pos(r.Pos())+")")
			}
		}
		c.Cond(len(bad) == 0, "same-answer", key, pos, strings.Join(bad, "; "))
		k.entryCoverage(s, key, pos)
		k.sideState(s, pos)
	}
	// functions that share a table
	byTable := map[string][]*entrySite{}
	for _, s := range sites {
		byTable[s.table] = append(byTable[s.table], s)
	}
	for _, t := range sorted2(byTable) {
		ss := byTable[t]
		for i := range ss {
			for j := i + 1; j < len(ss); j++ {
				k.disjoint(ss[i], ss[j])
			}
		}
	}
}

func sorted[V any](m map[string]V) []string {
	var out []string
	for x := range m {
		out = append(out, x)
	}
	sort.Strings(out)
	return out
}

func sorted2[V any](m map[string]V) []string { return sorted(m) }

func (k *caching) entryField(v ssa.Value, entry ssa.Value) (string, bool) {
	u, ok := k.strip(v).(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return "", false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || fa.X != entry {
		return "", false
	}
	return fieldNm(fa.X.Type(), fa.Field), true
}

// entryOf recognises a slot: fields compared, and stored in the same function.
func (k *caching) entryOf(f *ssa.Function, call *ssa.Call) *entrySite {
	s := &entrySite{fn: f, entry: call, compare: map[string]ssa.Value{}, stored: map[string]ssa.Value{}}
	var conds []*ssa.BinOp
	for _, r := range *call.Referrers() {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		fd := fieldNm(fa.X.Type(), fa.Field)
		for _, r2 := range *fa.Referrers() {
			switch x := r2.(type) {
			case *ssa.Store:
				if x.Addr == ssa.Value(fa) {
					s.stored[fd] = x.Val
				}
			case *ssa.UnOp:
				for _, r3 := range *x.Referrers() {
					switch y := r3.(type) {
					case *ssa.BinOp:
						if y.Op == token.EQL || y.Op == token.NEQ {
							conds = append(conds, y)
							if y.X == ssa.Value(x) {
								s.compare[fd] = y.Y
							} else {
								s.compare[fd] = y.X
							}
						}
					case *ssa.Return:
						s.hitRet = append(s.hitRet, y)
					}
				}
			}
		}
	}
	if len(conds) < 1 || len(s.stored) < 2 || len(s.hitRet) == 0 {
		return nil
	}
	s.conds = conds
	// the answer: the stored field that is returned after the store
	for fd, v := range s.stored {
		if _, cmp := s.compare[fd]; cmp {
			continue
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 && k.reachesValue(r.Results[0], k.strip(v), 0) {
				s.res = fd
			}
		}
	}
	if s.res == "" {
		for _, r := range s.hitRet {
			if fd, ok := k.entryField(r.Results[0], s.entry); ok {
				s.res = fd
			}
		}
	}
	// hits: all returns where every comparison holds are answered by the slot
	s.table = "?"
	if len(call.Call.Args) > 0 {
		if key, ok := valueFieldKey(call.Call.Args[0], 0); ok || key != "" {
			s.table = key
		}
	}
	if g := staticCallee(&call.Call); g == nil || s.table == "?" {
		return nil
	}
	return s
}

func (k *caching) dominatedByStore(s *entrySite, b *ssa.BasicBlock) bool {
	for _, r := range *s.entry.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok && fieldNm(fa.X.Type(), fa.Field) == s.res {
			for _, r2 := range *fa.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && (st.Block() == b || after(st, b.Instrs[len(b.Instrs)-1])) {
					return true
				}
			}
		}
	}
	return false
}

func (k *caching) phiFrom(v ssa.Value, s *entrySite) bool {
	ph, ok := k.strip(v).(*ssa.Phi)
	if !ok {
		return false
	}
	for i, e := range ph.Edges {
		if k.same(e, s.stored[s.res]) {
			continue
		}
		if k.dominatedByStore(s, ph.Block().Preds[i]) {
			return false
		}
	}
	return true
}

// bits is what is known about an id: its lowest three bits, and the value
// when it is a constant.
type idBits struct {
	low   int
	known bool
	val   string
}

func (k *caching) idOf(v ssa.Value, d int) idBits {
	if d > 5 {
		return idBits{}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(x.Value)
			return idBits{int(n & 7), true, fmt.Sprint(n)}
		}
	case *ssa.Convert:
		return k.idOf(x.X, d+1)
	case *ssa.ChangeType:
		return k.idOf(x.X, d+1)
	case *ssa.BinOp:
		switch x.Op {
		case token.SHL:
			if c, ok := x.Y.(*ssa.Const); ok && c.Int64() >= 3 {
				return idBits{low: 0, known: true}
			}
		case token.MUL:
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Int64()%8 == 0 {
				return idBits{low: 0, known: true}
			}
		case token.OR, token.ADD:
			a, b := k.idOf(x.X, d+1), k.idOf(x.Y, d+1)
			if a.known && b.known {
				if x.Op == token.OR {
					return idBits{low: a.low | b.low, known: true}
				}
				return idBits{low: (a.low + b.low) & 7, known: true}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if n, ok := k.globalInt(x.X); ok {
				return idBits{int(n & 7), true, fmt.Sprint(n)}
			}
		}
	case *ssa.Field:
		if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			if g, ok := u.X.(*ssa.Global); ok {
				if n, ok := k.globalField(g, x.Field); ok {
					return idBits{int(n & 7), true, fmt.Sprint(n)}
				}
			}
		}
	}
	return idBits{}
}

// globalInt: the initial value of an integer field of a package variable that
// is written only by the initialiser.
func (k *caching) globalInt(addr ssa.Value) (int64, bool) {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return 0, false
	}
	g, ok := fa.X.(*ssa.Global)
	if !ok {
		return 0, false
	}
	return k.globalField(g, fa.Field)
}

func (k *caching) globalField(g *ssa.Global, field int) (int64, bool) {
	ini := g.Pkg.Func("init")
	if ini == nil {
		return 0, false
	}
	var out int64
	n := 0
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fa.X != ssa.Value(g) || fa.Field != field {
				continue
			}
			c, ok := st.Val.(*ssa.Const)
			if !ok || c.Value == nil {
				return 0, false
			}
			out = c.Int64()
			n++
		}
	}
	if n == 0 {
		// the zero value is not stored explicitly
		for _, b := range ini.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && fa.X == ssa.Value(g) {
					return 0, true
				}
			}
		}
	}
	return out, n == 1
}

// idsOf: the ids a part of the question can have, over the callers.
func (k *caching) idsOf(v ssa.Value, f *ssa.Function, d int) []idBits {
	if b := k.idOf(v, 0); b.known {
		return []idBits{b}
	}
	if d > 3 {
		return nil
	}
	idx := paramIndex(v)
	field := -1
	if fl, ok := v.(*ssa.Field); ok {
		idx, field = paramIndex(fl.X), fl.Field
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			if al, ok := fa.X.(*ssa.Alloc); ok {
				if s := soleStore(al); s != nil {
					idx, field = paramIndex(s), fa.Field
				}
			}
		}
	}
	if idx < 0 {
		return nil
	}
	var out []idBits
	for _, call := range k.p.callsOf(f) {
		args := callArgs(call.Common(), f)
		if idx >= len(args) {
			return nil
		}
		a := args[idx]
		g := call.Parent()
		if g == f && paramIndex(a) == idx {
			continue
		}
		if field >= 0 {
			// a struct constant
			var glob *ssa.Global
			if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
				glob, _ = u.X.(*ssa.Global)
			}
			if glob != nil {
				n, ok := k.globalField(glob, field)
				if !ok {
					return nil
				}
				out = append(out, idBits{int(n & 7), true, fmt.Sprint(n)})
				continue
			}
			if pi := paramIndex(a); pi >= 0 {
				sub := k.fieldIDs(g, pi, field, d+1)
				if sub == nil {
					return nil
				}
				out = append(out, sub...)
				continue
			}
			if fv, ok := a.(*ssa.UnOp); ok {
				if x, ok := fv.X.(*ssa.FreeVar); ok {
					if b := bindingOf(x); b != nil {
						if al, ok := b.(*ssa.Alloc); ok {
							if s := soleStore(al); s != nil {
								if pi := paramIndex(s); pi >= 0 {
									sub := k.fieldIDs(s.Parent(), pi, field, d+1)
									if sub == nil {
										return nil
									}
									out = append(out, sub...)
									continue
								}
							}
						}
					}
				}
			}
			if x, ok := a.(*ssa.FreeVar); ok {
				if b := bindingOf(x); b != nil {
					if pi := paramIndex(b); pi >= 0 {
						sub := k.fieldIDs(b.Parent(), pi, field, d+1)
						if sub == nil {
							return nil
						}
						out = append(out, sub...)
						continue
					}
				}
			}
			return nil
		}
		sub := k.idsOf(a, g, d+1)
		if sub == nil {
			return nil
		}
		out = append(out, sub...)
	}
	return out
}

func (k *caching) fieldIDs(f *ssa.Function, idx, field, d int) []idBits {
	if d > 4 {
		return nil
	}
	var out []idBits
	for _, call := range k.p.callsOf(f) {
		args := callArgs(call.Common(), f)
		if idx >= len(args) {
			return nil
		}
		a := args[idx]
		if call.Parent() == f && paramIndex(a) == idx {
			continue
		}
		if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
			if glob, ok := u.X.(*ssa.Global); ok {
				n, ok := k.globalField(glob, field)
				if !ok {
					return nil
				}
				out = append(out, idBits{int(n & 7), true, fmt.Sprint(n)})
				continue
			}
		}
		if pi := paramIndex(a); pi >= 0 {
			sub := k.fieldIDs(call.Parent(), pi, field, d+1)
			if sub == nil && call.Parent() != f {
				return nil
			}
			out = append(out, sub...)
			continue
		}
		return nil
	}
	return out
}

// callsOf are the call sites of a function within the module.
func (p *Program) callsOf(f *ssa.Function) []ssa.CallInstruction {
	if p.callIdx == nil {
		p.callIdx = map[*ssa.Function][]ssa.CallInstruction{}
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if h := staticCallee(ci.Common()); h != nil {
							h = canonOf(h)
							p.callIdx[h] = append(p.callIdx[h], ci)
						}
					}
				}
			}
		}
	}
	return p.callIdx[f]
}

// disjoint: two functions that share a table tell their questions apart.
func (k *caching) disjoint(a, b *entrySite) {
	key := rel(a.fn) + " / " + rel(b.fn)
	apart, open := false, false
	for fd, va := range a.compare {
		vb, ok := b.compare[fd]
		if !ok {
			continue
		}
		ia, ib := k.idsOf(va, a.fn, 0), k.idsOf(vb, b.fn, 0)
		if ia == nil || ib == nil {
			if a.fn != b.fn && paramIndex(va) != firstNode(a.fn) {
				open = true
			}
			continue
		}
		all := true
		for _, x := range ia {
			for _, y := range ib {
				if x.low == y.low && (x.val == "" || y.val == "" || x.val == y.val) {
					all = false
				}
			}
		}
		if all {
			apart = true
		}
	}
	if !apart && open {
		return
	}
	k.c.Cond(apart, "one-question", key, k.p.pos(a.entry.Pos()), "two operations share a cache and use the same id for their questions")
}

func firstNode(f *ssa.Function) int {
	if f.Signature.Recv() != nil {
		return 1
	}
	return 0
}

// entryCoverage: every parameter is part of the question, or fixed by it.
func (k *caching) entryCoverage(s *entrySite, key, pos string) {
	f := s.fn
	used := map[int]bool{}
	var ids []ssa.Value
	for fd, v := range s.compare {
		_ = fd
		if i := paramIndex(v); i >= 0 {
			used[i] = true
			ids = append(ids, v)
			continue
		}
		if fl, ok := v.(*ssa.Field); ok {
			if i := paramIndex(fl.X); i >= 0 {
				used[i] = true
			}
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				if al, ok := fa.X.(*ssa.Alloc); ok {
					if st := soleStore(al); st != nil {
						if i := paramIndex(st); i >= 0 {
							used[i] = true
						}
					}
				}
			}
		}
	}
	var bad []string
	for i, prm := range f.Params {
		if i == 0 && f.Signature.Recv() != nil || used[i] || len(*prm.Referrers()) == 0 || implementsHandler(prm.Type()) {
			continue
		}
		// fixed by another part: for different values of it the callers use
		// different ids
		seen := map[string]map[int]bool{}
		known := true
		for _, call := range k.p.callsOf(f) {
			args := callArgs(call.Common(), f)
			if call.Parent() == f && paramIndex(args[i]) == i {
				continue
			}
			val := k.keyC(args[i])
			m := map[int]bool{}
			for _, idv := range ids {
				for _, b := range k.idsOf(args[paramIndex(idv)], call.Parent(), 1) {
					m[b.low] = true
				}
			}
			if len(m) == 0 {
				known = false
			}
			if seen[val] == nil {
				seen[val] = map[int]bool{}
			}
			for l := range m {
				seen[val][l] = true
			}
		}
		clash := !known
		vals := sorted(seen)
		for x := range vals {
			for y := x + 1; y < len(vals); y++ {
				for l := range seen[vals[x]] {
					if seen[vals[y]][l] {
						clash = true
					}
				}
			}
		}
		if clash {
			bad = append(bad, "the parameter "+prm.Name()+" is not part of the question")
		}
	}
	k.c.Cond(len(bad) == 0, "covered", key, pos, strings.Join(bad, "; "))
}
