package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C15"] = checkC15 }

// What a caller chooses is what runs.

// confT is a configuration type: its Sort and its default function.
type confT struct {
	named *types.Named
	sort  string        // term of the sort constant
	def   *ssa.Function // what its DefaultConfig method returns
}

type c15 struct {
	c     *Ctx
	p     *Program
	confs []*confT
	open  []string
	sub   *sccp // the propagation in the current case
}

func checkC15(c *Ctx) {
	p := c.P
	k := &c15{c: c, p: p}
	c.Rule("config-resolved", "an optional configuration: the one given, if there is one; else the factory's of that very sort, if there is one; else the default of that type", 6)
	c.Rule("config-handed-on", "a function that has a configuration gives it (or one derived from it) to every function that takes one of that type, and stores no other", 20)
	c.Rule("option-algorithm", "under every value of an option exactly the algorithm of that name can be reached, and no other of its family", 40)
	c.Rule("option-parameter", "a numeric or boolean option reaches the algorithms it parametrizes, and only those", 9)
	c.Rule("option-setter", "a method of a configuration or of call parameters sets what it is named after, to the value given, and gives back its receiver", 10)
	c.Rule("sat-call-asked", "a SAT call computes the model, the core and the propagated literals exactly when it was asked to and the answer allows it", 20)
	c.Rule("sat-call-result", "each accessor of a call result returns what the call put there for it", 5)
	c.Rule("variant-same", "the short variant of a function hands every argument it is given to the long variant", 14)
	k.findConfs()
	k.resolved()
	k.handedOn()
	k.options()
	k.params()
	k.setters()
	k.satCall()
	k.variants()
	sort.Strings(k.open)
	c.Extra["open"] = k.open
}

func (k *c15) openf(s string, a ...any) { k.open = append(k.open, fmt.Sprintf(s, a...)) }

// findConfs finds the types that implement configuration.Config.
func (k *c15) findConfs() {
	seen := map[*types.Named]bool{}
	for _, f := range k.p.Funcs {
		if f.Name() != "Sort" || f.Signature.Recv() == nil || f.Synthetic != "" || !inModule(f) {
			continue
		}
		res := f.Signature.Results()
		if res.Len() != 1 || !isNamed(res.At(0).Type(), "configuration", "Sort") {
			continue
		}
		t := f.Signature.Recv().Type()
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok || seen[n] {
			continue
		}
		seen[n] = true
		cf := &confT{named: n}
		r := (&sccp{p: k.p}).Run(f, nil)
		if len(r.Results) == 1 && r.Results[0].v != nil {
			cf.sort = "#" + r.Results[0].v.ExactString()
		}
		for _, g := range k.p.Funcs {
			if g.Name() != "DefaultConfig" || g.Signature.Recv() == nil || g.Synthetic != "" {
				continue
			}
			rt := g.Signature.Recv().Type()
			if q, ok := rt.(*types.Pointer); ok {
				rt = q.Elem()
			}
			if rt != t {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(*ssa.Call); ok {
						if h := staticCallee(&ci.Call); h != nil && inModule(h) && k.confPtr(h.Signature.Results()) == n {
							cf.def = h
						}
					}
				}
			}
		}
		k.confs = append(k.confs, cf)
	}
	sort.Slice(k.confs, func(i, j int) bool { return k.confs[i].named.String() < k.confs[j].named.String() })
	var s []string
	for _, cf := range k.confs {
		s = append(s, cf.named.Obj().Pkg().Name()+"."+cf.named.Obj().Name())
	}
	k.c.Extra["configuration types"] = s
}

func (k *c15) confPtr(tp *types.Tuple) *types.Named {
	if tp.Len() != 1 {
		return nil
	}
	return ptrNamed(tp.At(0).Type())
}

func ptrNamed(t types.Type) *types.Named {
	q, ok := t.(*types.Pointer)
	if !ok {
		return nil
	}
	n, _ := q.Elem().(*types.Named)
	return n
}

// confOf is the configuration type of a parameter: *T, T or []*T.
func (k *c15) confOf(t types.Type) *confT {
	if s, ok := t.(*types.Slice); ok {
		t = s.Elem()
	}
	if q, ok := t.(*types.Pointer); ok {
		t = q.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	for _, cf := range k.confs {
		if cf.named == n {
			return cf
		}
	}
	return nil
}

func confShort(cf *confT) string {
	return cf.named.Obj().Pkg().Name() + "." + cf.named.Obj().Name()
}

// cases of an optional configuration: how many are given, whether the factory
// has one.
type confCase struct {
	n      int64
	stored bool
}

func (cc confCase) String() string {
	if cc.n > 0 {
		return "one is given"
	}
	if cc.stored {
		return "none is given and the factory has one"
	}
	return "none is given and the factory has none"
}

var confCases = []confCase{{1, true}, {1, false}, {0, true}, {0, false}}

// eval is the propagation in one case; the configuration parameter is the
// value "given".
func (k *c15) eval(cf *confT, cc confCase) *sccp {
	return &sccp{p: k.p, maxD: 4, memo: map[string][]cval{}, skip: k.irrelevant, FixG: func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
		switch x := v.(type) {
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if get(x.Call.Args[0]).sym == "given" {
					return cval{v: constant.MakeInt64(cc.n)}, true
				}
				return cval{}, false
			}
			if g := staticCallee(&x.Call); g != nil && g == cf.def {
				return cval{sym: "default"}, true
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok && c.Call.IsInvoke() && c.Call.Method.Name() == "ConfigurationFor" {
				own := false
				if a := get(c.Call.Args[0]); a.v != nil {
					own = "#"+a.v.ExactString() == cf.sort
					if !own {
						if x.Index == 0 {
							return cval{sym: "the configuration of another sort"}, true
						}
						return cval{v: constant.MakeBool(true)}, true
					}
				}
				if !own {
					return cBottom, true
				}
				if x.Index == 0 {
					return cval{sym: "stored"}, true
				}
				return cval{v: constant.MakeBool(cc.stored)}, true
			}
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && ta.CommaOk {
				if s := get(ta.X).sym; s != "" {
					if x.Index == 0 {
						return cval{sym: s}, true
					}
					return cval{v: constant.MakeBool(s != "stored" || cc.stored)}, true
				}
			}
		case *ssa.TypeAssert:
			if s := get(x.X).sym; s != "" && !x.CommaOk {
				return cval{sym: s}, true
			}
		case *ssa.ChangeInterface:
			return get(x.X), true
		case *ssa.MakeInterface:
			if s := get(x.X).sym; s != "" {
				return cval{sym: s}, true
			}
		case *ssa.BinOp:
			a, b := get(x.X), get(x.Y)
			if a.sym == "" {
				a, b = b, a
			}
			if b.nil_ && (x.Op.String() == "==" || x.Op.String() == "!=") {
				switch {
				case a.sym == "given" && isSliceT(x.X.Type()):
					return cval{v: constant.MakeBool((cc.n == 0) == (x.Op.String() == "=="))}, true
				case a.sym == "stored":
					return cval{v: constant.MakeBool(cc.stored == (x.Op.String() == "!="))}, true
				case a.sym != "":
					return cval{v: constant.MakeBool(x.Op.String() == "!=")}, true
				}
			}
		case *ssa.UnOp:
			if ia, ok := x.X.(*ssa.IndexAddr); ok && get(ia.X).sym == "given" {
				if n := get(ia.Index); n.v != nil && n.v.ExactString() == "0" {
					return cval{sym: "given[0]"}, true
				}
				return cval{sym: "another one than the first"}, true
			}
			if s := get(x.X).sym; s != "" && x.Op.String() == "*" {
				return cval{sym: s}, true // the value behind the pointer
			}
		case *ssa.Index:
			if get(x.X).sym == "given" {
				return cval{sym: "given[0]"}, true
			}
		}
		return cval{}, false
	}}
}

// irrelevant says that a function neither takes nor returns a configuration.
func (k *c15) irrelevant(g *ssa.Function) bool {
	for _, tp := range []*types.Tuple{g.Signature.Params(), g.Signature.Results()} {
		for i := 0; i < tp.Len(); i++ {
			t := tp.At(i).Type()
			if k.confOf(t) != nil || isNamed(t, "configuration", "Config") || isNamed(t, "configuration", "Sort") {
				return false
			}
		}
	}
	return g.Signature.Recv() == nil || k.confOf(g.Signature.Recv().Type()) == nil
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// what resolves the configuration behind v: "" if unknown.
func (k *c15) what(r *sccpResult, v ssa.Value, depth int) string {
	if depth > 8 {
		return ""
	}
	if c := r.get(v); c.sym != "" {
		return c.sym
	} else if c.nil_ {
		if isSliceT(v.Type()) {
			return "none"
		}
		return "nil"
	}
	switch x := v.(type) {
	case *ssa.Phi:
		out := ""
		for i, e := range x.Edges {
			if !r.Edges[[2]*ssa.BasicBlock{x.Block().Preds[i], x.Block()}] {
				continue
			}
			s := k.what(r, e, depth+1)
			if s == "" || out != "" && out != s {
				return ""
			}
			out = s
		}
		return out
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			if _, ok := deref(al.Type()).Underlying().(*types.Array); ok {
				out := ""
				for _, ref := range *al.Referrers() {
					ia, ok := ref.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					for _, rr := range *ia.Referrers() {
						st, ok := rr.(*ssa.Store)
						if !ok || st.Addr != ia || !r.Reach[st.Block()] {
							continue
						}
						s := k.what(r, st.Val, depth+1)
						if s == "" || out != "" && out != s {
							return ""
						}
						out = s
					}
				}
				return out
			}
		}
		return ""
	case *ssa.Alloc:
		out := ""
		for _, ref := range *x.Referrers() {
			if st, ok := ref.(*ssa.Store); ok && st.Addr == x && r.Reach[st.Block()] {
				s := k.what(r, st.Val, depth+1)
				if s == "" || out != "" && out != s {
					return ""
				}
				out = s
			}
		}
		if out == "" && structOf(deref(x.Type())) != nil {
			// a literal: is it filled from the given one?
			fresh := true
			for _, ref := range *x.Referrers() {
				if fa, ok := ref.(*ssa.FieldAddr); ok {
					for _, rr := range *fa.Referrers() {
						if st, ok := rr.(*ssa.Store); ok && st.Addr == fa {
							if _, ok := st.Val.(*ssa.Const); !ok {
								fresh = false
							}
						}
					}
				}
			}
			if fresh {
				return "a fresh one"
			}
		}
		return out
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			if _, ok := x.X.(*ssa.Alloc); ok {
				return k.what(r, x.X, depth+1)
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if al, ok := fa.X.(*ssa.Alloc); ok {
					// a field of a struct built here
					out := ""
					for _, ref := range *al.Referrers() {
						fb, ok := ref.(*ssa.FieldAddr)
						if !ok || fb.Field != fa.Field {
							continue
						}
						for _, rr := range *fb.Referrers() {
							if st, ok := rr.(*ssa.Store); ok && st.Addr == fb && r.Reach[st.Block()] {
								s := k.what(r, st.Val, depth+1)
								if s == "" || out != "" && out != s {
									return ""
								}
								out = s
							}
						}
					}
					return out
				}
			}
		}
	case *ssa.MakeInterface:
		return k.what(r, x.X, depth+1)
	case *ssa.ChangeType:
		return k.what(r, x.X, depth+1)
	case *ssa.Call:
		g := staticCallee(&x.Call)
		if g == nil || !inModule(g) || len(g.Blocks) == 0 || k.sub == nil || g.Signature.Results().Len() != 1 {
			return ""
		}
		var args []cval
		for _, a := range x.Call.Args {
			args = append(args, r.get(a))
		}
		r2 := k.sub.Run(g, args)
		out := ""
		for _, ret := range r2.Returns {
			s := k.what(r2, ret.Results[0], depth+2)
			if s == "" || out != "" && out != s {
				return ""
			}
			out = s
		}
		return out
	}
	return ""
}

func (k *c15) confParam(f *ssa.Function) (int, *confT) {
	for i, q := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			continue
		}
		if cf := k.confOf(q.Type()); cf != nil {
			return i, cf
		}
	}
	return -1, nil
}

func (k *c15) caseArgs(f *ssa.Function, i int) []cval {
	args := make([]cval, len(f.Params))
	args[i] = cval{sym: "given"}
	return args
}

// resolved: functions that turn an optional configuration into one.
func (k *c15) resolved() {
	for _, f := range k.p.Funcs {
		if f.Synthetic != "" || !inModule(f) || f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		i, cf := k.confParam(f)
		if cf == nil || !isSliceT(f.Params[i].Type()) || k.confPtr(f.Signature.Results()) != cf.named {
			continue
		}
		key := rel(f)
		if cf.def == nil || cf.sort == "" {
			k.openf("%s: sort or default of %s not resolved", key, confShort(cf))
			continue
		}
		bad, unk, partial := "", "", false
		for _, cc := range confCases {
			k.sub = k.eval(cf, cc)
			r := k.sub.Run(f, k.caseArgs(f, i))
			want := "default"
			if cc.n > 0 {
				want = "given[0]"
			} else if cc.stored {
				want = "stored"
			}
			if len(r.Returns) == 0 {
				unk = "no return"
			}
			for _, ret := range r.Returns {
				switch got := k.what(r, ret.Results[0], 0); {
				case got == "":
					unk = cc.String()
				case got == "nil":
					partial = true // its callers go on
				case got != want && bad == "":
					bad = fmt.Sprintf("when %s, the result is %q instead of %q", cc, got, want)
				}
			}
		}
		if partial {
			continue
		}
		if bad == "" && unk != "" {
			k.openf("%s: not resolved when %s", key, unk)
			continue
		}
		k.c.Cond(bad == "", "config-resolved", key, k.p.pos(f.Pos()), bad)
	}
}

// maybeNone reports whether f can be called without a configuration.
func (k *c15) maybeNone(f *ssa.Function, i, d int) bool {
	if exported(f) || d > 4 {
		return true
	}
	cs := k.p.callsOf(f)
	for _, c := range cs {
		a := c.Common().Args
		if i >= len(a) {
			return true
		}
		switch x := a[i].(type) {
		case *ssa.Slice:
			if al, ok := x.X.(*ssa.Alloc); ok && len(*al.Referrers()) > 1 {
				continue
			}
		case *ssa.Parameter:
			for j, q := range c.Parent().Params {
				if q == x && !k.maybeNone(c.Parent(), j, d+1) {
					continue
				}
			}
		}
		return true
	}
	return len(cs) == 0
}

// handedOn: what a function that has a configuration gives to others.
func (k *c15) handedOn() {
	for _, f := range k.p.Funcs {
		if f.Synthetic != "" || !inModule(f) || f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		i, cf := k.confParam(f)
		if cf == nil {
			continue
		}
		slice := isSliceT(f.Params[i].Type())
		cases := confCases
		if !slice || !k.maybeNone(f, i, 0) {
			cases = confCases[:1]
		}
		type use struct {
			in   ssa.Instruction
			v    ssa.Value
			what string
		}
		var uses []use
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					if x.Common().IsInvoke() {
						continue
					}
					g := staticCallee(x.Common())
					if g == nil || !inModule(g) || g == cf.def {
						continue
					}
					for j, a := range x.Common().Args {
						if j == 0 && g.Signature.Recv() != nil {
							continue
						}
						if k.confOf(a.Type()) == cf {
							uses = append(uses, use{in, a, rel(g)})
						}
					}
				case *ssa.Store:
					if k.confOf(x.Val.Type()) != cf || isSliceT(x.Val.Type()) {
						continue
					}
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						uses = append(uses, use{in, x.Val, "field " + fieldName(deref(fa.X.Type()), fa.Field)})
					}
				}
			}
		}
		n := map[string]int{}
		for _, u := range uses {
			n[u.what]++
			key := rel(f) + " -> " + u.what
			if n[u.what] > 1 {
				key += fmt.Sprintf(" #%d", n[u.what])
			}
			bad, unk := "", ""
			for _, cc := range cases {
				k.sub = k.eval(cf, cc)
				r := k.sub.Run(f, k.caseArgs(f, i))
				if !r.Reach[u.in.Block()] {
					continue
				}
				got := k.what(r, u.v, 0)
				ok := false
				switch {
				case got == "":
					unk = "?"
					continue
				case !slice:
					ok = got == "given"
				case cc.n > 0:
					ok = got == "given" || got == "given[0]"
				case isSliceT(u.v.Type()) && (got == "given" || got == "none"):
					ok = true
				case cc.stored:
					ok = got == "stored"
				default:
					ok = got == "default"
				}
				if !ok && bad == "" {
					bad = fmt.Sprintf("when %s, %s gets %s", cc, u.what, map[string]string{"none": "none", "nil": "nil"}[got]+strings.TrimSuffix(got, "none"))
				}
			}
			if bad == "" && unk != "" {
				k.openf("handed on: %s", key)
				continue
			}
			k.c.Cond(bad == "", "config-handed-on", key, k.p.pos(u.in.Pos()), bad)
		}
	}
}

// optGroup is a family of algorithms selected by the constants of an enum.
type optGroup struct {
	name    string
	entries []string // pkg.Func or pkg.Type.Method; closures inside count too
	enumPkg string
	enum    string
	// famOf maps functions to the algorithm they are
	famOf map[string]string
	// want maps constants to algorithms; a value ending in "?" is one of
	// several that may be used, at least one has to be
	want map[string][]string
	// also fixes other options by enum type
	also map[string]string
	// must says that the calls cannot be hidden from the analysis
	must bool
}

func fam(kv ...string) map[string]string {
	m := map[string]string{}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i]] = kv[i+1]
	}
	return m
}

var optGroups = []optGroup{
	{name: "at-most-one", entries: []string{"encoding.EncodeCCInResult", "encoding.EncodeCC", "encoding.EncodePBC"}, enumPkg: "encoding", enum: "AMOEncoder",
		famOf: fam("encoding.amoPure", "pure", "encoding.amoLadder", "ladder", "encoding.amoProduct", "product", "encoding.amoNested", "nested", "encoding.amoCommander", "commander", "encoding.amoBinary", "binary", "encoding.amoBimander", "bimander"),
		want:  map[string][]string{"AMOPure": {"pure"}, "AMOLadder": {"ladder"}, "AMOProduct": {"product"}, "AMONested": {"nested"}, "AMOCommander": {"commander"}, "AMOBinary": {"binary"}, "AMOBimander": {"bimander"}, "AMOBest": {"*"}}},
	{name: "at-most-k", entries: []string{"encoding.EncodeCCInResult", "encoding.EncodeIncremental"}, enumPkg: "encoding", enum: "AMKEncoder",
		famOf: fam("encoding.totalizerAMK", "totalizer", "encoding.modtotalizerAMK", "modular totalizer", "encoding.cnAmk", "cardinality network", "encoding.cnAmkForIncremental", "cardinality network"),
		want:  map[string][]string{"AMKTotalizer": {"totalizer"}, "AMKModularTotalizer": {"modular totalizer"}, "AMKCardinalityNetwork": {"cardinality network"}, "AMKBest": {"*"}}},
	{name: "at-least-k", entries: []string{"encoding.EncodeCCInResult", "encoding.EncodeIncremental"}, enumPkg: "encoding", enum: "ALKEncoder",
		famOf: fam("encoding.totalizerALK", "totalizer", "encoding.modtotalizerALK", "modular totalizer", "encoding.cnAlk", "cardinality network", "encoding.cnAlkForIncremental", "cardinality network"),
		want:  map[string][]string{"ALKTotalizer": {"totalizer"}, "ALKModularTotalizer": {"modular totalizer"}, "ALKCardinalityNetwork": {"cardinality network"}, "ALKBest": {"*"}}},
	{name: "exactly-k", entries: []string{"encoding.EncodeCCInResult"}, enumPkg: "encoding", enum: "EXKEncoder",
		famOf: fam("encoding.totalizerEXK", "totalizer", "encoding.cnExk", "cardinality network"),
		want:  map[string][]string{"EXKTotalizer": {"totalizer"}, "EXKCardinalityNetwork": {"cardinality network"}, "EXKBest": {"*"}}},
	{name: "pseudo-Boolean", entries: []string{"encoding.EncodePBCInResult", "encoding.EncodePBC"}, enumPkg: "encoding", enum: "PBCEncoder",
		famOf: fam("encoding.encodePBCSWC", "sequential weight counter", "encoding.encodePBCBinaryMerge", "binary merge", "encoding.encodePBCAdder", "adder network"),
		want:  map[string][]string{"PBCSWC": {"sequential weight counter"}, "PBCBinaryMerge": {"binary merge"}, "PBCAdderNetworks": {"adder network"}, "PBCBest": {"*"}}},
	{name: "CNF", entries: []string{"normalform.CNF"}, enumPkg: "normalform", enum: "CNFAlgorithm",
		famOf: cnfFam,
		want:  map[string][]string{"CNFFactorization": {"factorization"}, "CNFTseitin": {"Tseitin"}, "CNFPlaistedGreenbaum": {"Plaisted-Greenbaum"}}},
	{name: "CNF fallback", entries: []string{"normalform.CNF"}, enumPkg: "normalform", enum: "CNFConfig.FallbackAlgorithmForAdvancedEncoding",
		famOf: cnfFam, also: map[string]string{"CNFConfig.Algorithm": "CNFAdvanced"},
		want: map[string][]string{"CNFTseitin": {"factorization", "Tseitin"}, "CNFPlaistedGreenbaum": {"factorization", "Plaisted-Greenbaum"}}},
	{name: "SAT clauses", entries: []string{"sat.Solver.Add", "sat.Solver.AddProposition"}, enumPkg: "sat", enum: "CNFMethod",
		famOf: fam("normalform.CNF", "factory", "sat.pgOnSolver.addCNFToSolver", "on the solver"),
		want:  map[string][]string{"CNFFactory": {"factory"}, "CNFPG": {"on the solver"}, "CNFFullPG": {"on the solver"}}},
	{name: "clause minimization", entries: []string{"sat.CoreSolver.simplifyClause"}, enumPkg: "sat", enum: "ClauseMinimization",
		famOf: fam("sat.CoreSolver.litRedundant", "deep"),
		want:  map[string][]string{"ClauseMinNone": {}, "ClauseMinBasic": {}, "ClauseMinDeep": {"deep"}}},
	{name: "LinearUS strategy", entries: []string{"maxsat.linearUS.search"}, enumPkg: "maxsat", enum: "IncrementalStrategy",
		famOf: fam("maxsat.linearUS.none", "none", "maxsat.linearUS.iterative", "iterative"),
		want:  map[string][]string{"IncNone": {"none"}, "IncIterative": {"iterative"}}},
	{name: "MSU3 strategy", entries: []string{"maxsat.msu3.search"}, enumPkg: "maxsat", enum: "IncrementalStrategy",
		famOf: fam("maxsat.msu3.none", "none", "maxsat.msu3.iterative", "iterative"),
		want:  map[string][]string{"IncNone": {"none"}, "IncIterative": {"iterative"}}},
	{name: "WMSU3 strategy", entries: []string{"maxsat.wmsu3.search"}, enumPkg: "maxsat", enum: "IncrementalStrategy",
		famOf: fam("maxsat.wmsu3.none", "none", "maxsat.wmsu3.iterative", "iterative", "maxsat.wmsu3.iterativeBmo", "iterative"),
		want:  map[string][]string{"IncNone": {"none"}, "IncIterative": {"iterative"}}},
	{name: "MaxSAT algorithm", entries: []string{"maxsat.newSolver"}, enumPkg: "maxsat", enum: "Algorithm", famOf: msFam,
		want: map[string][]string{"AlgWBO": {"WBO"}, "AlgIncWBO": {"IncWBO"}, "AlgLinearSU": {"LinearSU"}, "AlgLinearUS": {"LinearUS"}, "AlgMSU3": {"MSU3"}, "AlgWMSU3": {"WMSU3"}, "AlgOLL": {"OLL"}}},
	{name: "at-most clauses", entries: []string{"sat.Solver.Add", "sat.Solver.AddProposition"}, enumPkg: "sat", enum: "Config.UseAtMostClauses",
		famOf: fam("sat.CoreSolver.addAtMost", "at-most clause"),
		want:  map[string][]string{"true": {"at-most clause"}, "false": {}}},
	{name: "backbone restriction", entries: []string{"simplification.AdvancedWithHandler"}, enumPkg: "simplification", enum: "Config.RestrictBackbone",
		famOf: fam("sat.Solver.ComputeBackbone", "backbone", "sat.Solver.ComputeBackboneWithHandler", "backbone"),
		want:  map[string][]string{"true": {"backbone"}, "false": {}}},
	{name: "backbone put back", must: true, entries: []string{"simplification.AdvancedWithHandler"}, enumPkg: "simplification", enum: "Config.RestrictBackbone", also: map[string]string{"Config.FactorOut": "false", "Config.SimplifyNegations": "false"},
		famOf: fam("invoke.And", "conjunction with the backbone"),
		want:  map[string][]string{"true": {"conjunction with the backbone"}, "false": {"?conjunction with the backbone"}}},
	{name: "rating", entries: []string{"simplification.AdvancedWithHandler"}, enumPkg: "simplification", enum: "Config.UseRatingFunction", also: map[string]string{"Config.FactorOut": "false"},
		famOf: fam("field.RatingFunction", "rating"),
		want:  map[string][]string{"true": {"rating"}, "false": {}}},
	{name: "factoring out", entries: []string{"simplification.AdvancedWithHandler"}, enumPkg: "simplification", enum: "Config.FactorOut",
		famOf: fam("simplification.FactorOut", "factor out"),
		want:  map[string][]string{"true": {"factor out"}, "false": {}}},
	{name: "negation simplification", entries: []string{"simplification.AdvancedWithHandler"}, enumPkg: "simplification", enum: "Config.SimplifyNegations",
		famOf: fam("simplification.MinimizeNegations", "minimize negations"),
		want:  map[string][]string{"true": {"minimize negations"}, "false": {}}},
	{name: "stratification", entries: []string{"maxsat.wmsu3.search"}, enumPkg: "maxsat", enum: "wmsu3.bmoMode", also: map[string]string{"IncrementalStrategy": "IncIterative"},
		famOf: fam("maxsat.wmsu3.iterativeBmo", "stratified", "maxsat.wmsu3.iterative", "plain"),
		want:  map[string][]string{"true": {"plain", "stratified"}, "false": {"plain"}}},
	{name: "LinearSU stratification", entries: []string{"maxsat.linearSU.search"}, enumPkg: "maxsat", enum: "linearSU.bmoMode",
		famOf: fam("maxsat.linearSU.bmoSearch", "stratified", "maxsat.linearSU.normalSearch", "plain"),
		want:  map[string][]string{"true": {"plain", "stratified"}, "false": {"plain"}}},
	{name: "reordering", entries: []string{"bdd.Kernel.Reorder"}, enumPkg: "bdd", enum: "ReorderingMethod",
		famOf: fam("bdd.reordering.reorderWin2", "win2", "bdd.reordering.reorderWin2ite", "win2 iterative", "bdd.reordering.reorderSift", "sift", "bdd.reordering.reorderSiftite", "sift iterative", "bdd.reordering.reorderWin3", "win3", "bdd.reordering.reorderWin3ite", "win3 iterative", "bdd.reordering.reorderRandom", "random"),
		want:  map[string][]string{"ReorderNone": {}, "ReorderWin2": {"win2"}, "ReorderWin2Ite": {"win2 iterative"}, "ReorderSift": {"sift"}, "ReorderSiftIte": {"sift iterative"}, "ReorderWin3": {"win3"}, "ReorderWin3Ite": {"win3 iterative"}, "ReorderRandom": {"random"}}},
}

var cnfFam = fam("normalform.FactorizedCNF", "factorization", "normalform.FactorizedCNFWithHandler", "factorization", "normalform.PGCNF", "Plaisted-Greenbaum", "normalform.PGCNFWithBoundary", "Plaisted-Greenbaum", "normalform.TseitinCNF", "Tseitin", "normalform.TseitinCNFWithBoundary", "Tseitin",
	"normalform.PGCNFDefault", "Plaisted-Greenbaum", "normalform.TseitinCNFDefault", "Tseitin")
var msFam = fam("maxsat.newWBO", "WBO", "maxsat.newIncWBO", "IncWBO", "maxsat.newLinearSU", "LinearSU", "maxsat.newLinearUS", "LinearUS", "maxsat.newMSU3", "MSU3", "maxsat.newWMSU3", "WMSU3", "maxsat.newOLL", "OLL")

func (k *c15) fn(name string) *ssa.Function {
	i := strings.Index(name, ".")
	return k.p.Func(name[:i], name[i+1:])
}

func (k *c15) constant(pkg, name string) constant.Value {
	if name == "true" || name == "false" {
		return constant.MakeBool(name == "true")
	}
	pk := k.p.ByPth[pkg]
	if pk == nil || pk.Types == nil {
		return nil
	}
	if c, ok := pk.Types.Scope().Lookup(name).(*types.Const); ok {
		return c.Val()
	}
	return nil
}

// loadsField reports whether v is the value of a field of a struct, and which.
func loadsField(v ssa.Value) (types.Type, string) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op.String() == "*" {
			return deref(fa.X.Type()), fieldName(deref(fa.X.Type()), fa.Field)
		}
	case *ssa.Field:
		return x.X.Type(), fieldName(x.X.Type(), x.Field)
	}
	return nil, ""
}

// fixEnum gives every value of an enum type read from a field (or of one
// field only) a constant.
func fixEnum(pkg, enum string, c constant.Value) func(v ssa.Value) (cval, bool) {
	return func(v ssa.Value) (cval, bool) {
		t, f := loadsField(v)
		if t == nil {
			return cval{}, false
		}
		if i := strings.Index(enum, "."); i >= 0 {
			if isNamed(t, pkg, enum[:i]) && f == enum[i+1:] {
				return cval{v: c}, true
			}
			return cval{}, false
		}
		if isNamed(v.Type(), pkg, enum) {
			return cval{v: c}, true
		}
		return cval{}, false
	}
}

func (k *c15) options() {
	for _, g := range optGroups {
		known := 0
		for name := range g.famOf {
			if strings.HasPrefix(name, "invoke.") || strings.HasPrefix(name, "field.") || k.fn(name) != nil {
				known++
			}
		}
		for _, en := range g.entries {
			e := k.fn(en)
			if e == nil {
				k.openf("option %s: %s not found", g.name, en)
				continue
			}
			var fs []*ssa.Function
			fs = append(fs, e)
			for i := 0; i < len(fs); i++ {
				fs = append(fs, fs[i].AnonFuncs...)
			}
			got := map[string]map[string]bool{}
			any, dyn := false, false
			var consts []string
			for cn := range g.want {
				consts = append(consts, cn)
			}
			sort.Strings(consts)
			for _, cn := range consts {
				cv := k.constant(g.enumPkg, cn)
				if cv == nil {
					k.openf("option %s: constant %s not found", g.name, cn)
					continue
				}
				fix := fixEnum(g.enumPkg, g.enum, cv)
				for field, c2 := range g.also {
					if v2 := k.constant(g.enumPkg, c2); v2 != nil {
						fix = both(fix, fixEnum(g.enumPkg, field, v2))
					}
				}
				reached := map[string]bool{}
				w := &reachWalk{s: &sccp{p: k.p, Fix: fix, maxD: 2, memo: map[string][]cval{}}}
				runs, walked := map[*ssa.Function]*sccpResult{}, map[*ssa.Function]*sccpResult{}
				w.s.Fix = func(v ssa.Value) (cval, bool) {
					if c, ok := fix(v); ok {
						return c, true
					}
					return captured(v, runs)
				}
				done := map[string]bool{}
				w.on = func(f *ssa.Function, ci ssa.CallInstruction, args []cval, r *sccpResult) bool {
					if ci.Common().IsInvoke() {
						if fm, ok := g.famOf["invoke."+ci.Common().Method.Name()]; ok {
							reached[fm] = true
						}
						return false
					}
					h := staticCallee(ci.Common())
					if h == nil {
						if _, ok := ci.Common().Value.(*ssa.Builtin); ok {
							return false
						}
						sameSig := false
						for name := range g.famOf {
							if h := k.fn(name); h != nil && sameSignature(h, ci.Common().Signature()) {
								sameSig = true
							}
						}
						if !sameSig {
							return false
						}
						hs, ok := funcsBehind(ci.Common().Value, r, 0)
						if q, isP := ci.Common().Value.(*ssa.Parameter); isP {
							hs, ok = nil, true
							for i, x := range f.Params {
								if x != q {
									continue
								}
								for _, cs := range k.p.callsOf(f) {
									if walked[cs.Parent()] != nil && i < len(cs.Common().Args) {
										fs, ok2 := funcsBehind(cs.Common().Args[i], walked[cs.Parent()], 0)
										ok = ok && ok2
										hs = append(hs, fs...)
									}
								}
							}
							// closures of the entry are walked anyway
							hs = slices.DeleteFunc(hs, func(h *ssa.Function) bool { return slices.Contains(fs, h) })
						}
						if !ok {
							dyn = true
						}
						for _, h := range hs {
							if fm, ok := g.famOf[dotted(h)]; ok {
								reached[fm] = true
							} else if inModule(h) && shortPkg(pkgOf(h)) == shortPkg(pkgOf(e)) {
								if sig := rel(h) + fmt.Sprint(args); !done[sig] {
									done[sig] = true
									w.Run(h, args, 4)
								}
							}
						}
						return false
					}
					if !inModule(h) {
						return false
					}
					if fm, ok := g.famOf[dotted(h)]; ok {
						reached[fm] = true
						return false
					}
					if shortPkg(pkgOf(h)) != shortPkg(pkgOf(e)) {
						return false
					}
					sig := rel(h) + fmt.Sprint(args)
					if done[sig] {
						return false
					}
					done[sig] = true
					return true
				}
				w.at = func(f *ssa.Function, r *sccpResult) {
					walked[f] = r
					for b := range r.Reach {
						for _, in := range b.Instrs {
							if v, ok := in.(ssa.Value); ok {
								if t, fl := loadsField(v); t != nil {
									if fm, ok := g.famOf["field."+fl]; ok {
										reached[fm] = true
									}
								}
							}
						}
					}
				}
				for _, f := range fs {
					args := make([]cval, len(f.Params))
					for i, q := range f.Params {
						if isNamed(q.Type(), g.enumPkg, g.enum) {
							args[i] = cval{v: cv}
						}
					}
					runs[f] = w.Run(f, args, 8)
				}
				got[cn] = reached
				any = any || len(reached) > 0
			}
			if !any && !g.must {
				k.openf("option %s from %s: none of the algorithms is reached by calls the analysis sees", g.name, en)
				continue
			}
			for _, cn := range consts {
				r := got[cn]
				if r == nil {
					continue
				}
				want := g.want[cn]
				key := g.name + " " + cn + " from " + en
				d, missed := "", false
				if len(want) == 1 && want[0] == "*" {
					if len(r) == 0 {
						d = "under " + cn + " no algorithm is reached"
					}
				} else {
					for _, x := range want {
						if !r[x] && x[0] != '?' {
							missed = true
							d = fmt.Sprintf("under %s the algorithm %q is not reached (reached: %s)", cn, x, keysOf(r))
						}
					}
					for x := range r {
						if !inStrs(want, x) && !inStrs(want, "?"+x) {
							d = fmt.Sprintf("under %s the algorithm %q can run (wanted: %s)", cn, x, strings.Join(want, ", "))
						}
					}
				}
				if missed && dyn {
					k.openf("option %s: chosen by a function value", key)
					continue
				}
				if d != "" && known < len(g.famOf)-4 && len(r) == 0 {
					k.openf("option %s: algorithms renamed", g.name)
					continue
				}
				k.c.Cond(d == "", "option-algorithm", key, k.p.pos(e.Pos()), d)
			}
		}
	}
	k.msConstructors()
	k.pgMode()
	k.minimization()
	k.backboneSorts()
	k.phase()
}

// phase: a variable that is added to the solver starts with the configured
// phase (the core takes the sign, hence its negation).
func (k *c15) phase() {
	nv := k.p.Func("sat", "CoreSolver.NewVar")
	if nv == nil {
		k.openf("sat.CoreSolver.NewVar not found")
		return
	}
	for _, cs := range k.p.callsOf(nv) {
		f := cs.Parent()
		args := cs.Common().Args
		if len(args) < 2 || shortPkg(pkgOf(f)) != "sat" {
			continue
		}
		var got [2]cval
		for i, ph := range []bool{false, true} {
			read := false
			r := (&sccp{p: k.p, memo: map[string][]cval{}, Fix: func(v ssa.Value) (cval, bool) {
				t, fl := loadsField(v)
				if t != nil && (isNamed(t, "sat", "Config") && fl == "InitialPhase" || isNamed(t, "sat", "pgOnSolver") && fl == "initialPhase") {
					read = true
					return cval{v: constant.MakeBool(ph)}, true
				}
				return cval{}, false
			}}).Run(f, nil)
			if read {
				got[i] = r.get(args[1])
			}
		}
		if got[0].v == nil && got[1].v == nil {
			continue // another phase than the configured one
		}
		ok := got[0].v != nil && got[1].v != nil && constant.BoolVal(got[0].v) && !constant.BoolVal(got[1].v)
		k.c.Cond(ok, "option-parameter", "initial phase in "+rel(f), k.p.pos(cs.Pos()), "a new variable does not start with the configured phase")
	}
}

// captured is the value of a variable of the enclosing function that is set
// once, read in a closure.
func captured(v ssa.Value, runs map[*ssa.Function]*sccpResult) (cval, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op.String() != "*" {
		return cval{}, false
	}
	fv, ok := u.X.(*ssa.FreeVar)
	if !ok {
		return cval{}, false
	}
	f := fv.Parent()
	r := runs[f.Parent()]
	if r == nil {
		return cval{}, false
	}
	var bound ssa.Value
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				for i, x := range f.FreeVars {
					if x == fv {
						bound = mc.Bindings[i]
					}
				}
			}
		}
	}
	al, ok := bound.(*ssa.Alloc)
	if !ok {
		return cval{}, false
	}
	var val ssa.Value
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr != al || val != nil {
				return cval{}, false
			}
			val = x.Val
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			g, _ := x.Fn.(*ssa.Function)
			for i, bd := range x.Bindings {
				if bd == al && g != nil {
					for _, rr := range *g.FreeVars[i].Referrers() {
						if _, ok := rr.(*ssa.UnOp); !ok {
							return cval{}, false
						}
					}
				}
			}
		default:
			return cval{}, false
		}
	}
	if val == nil {
		return cval{}, false
	}
	c := r.get(val)
	return c, c.known()
}

// dotted names a function pkg.Func or pkg.Type.Method.
func dotted(f *ssa.Function) string {
	f = canonOf(f)
	s := shortPkg(pkgOf(f)) + "."
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			s += n.Obj().Name() + "."
		}
	}
	return s + f.Name()
}

func keysOf(m map[string]bool) string {
	var s []string
	for x := range m {
		s = append(s, x)
	}
	sort.Strings(s)
	if len(s) == 0 {
		return "none"
	}
	return strings.Join(s, ", ")
}

func inStrs(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// msConstructors: each constructor of a MaxSAT solver makes its algorithm.
func (k *c15) msConstructors() {
	for _, name := range []string{"LinearSU", "LinearUS", "MSU3", "WMSU3", "WBO", "IncWBO", "OLL"} {
		f := k.p.Func("maxsat", name)
		if f == nil {
			k.openf("constructor maxsat.%s not found", name)
			continue
		}
		reached := map[string]bool{}
		w := &reachWalk{s: &sccp{p: k.p}}
		// what a freshly built solver records as its algorithm is what it was given
		alg := cBottom
		w.s.FixG = func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
			if t, _ := loadsField(v); t != nil && isNamed(v.Type(), "maxsat", "Algorithm") && alg.v != nil {
				return alg, true
			}
			return cval{}, false
		}
		w.on = func(g *ssa.Function, ci ssa.CallInstruction, args []cval, r *sccpResult) bool {
			h := staticCallee(ci.Common())
			if h == nil || !inModule(h) || shortPkg(pkgOf(h)) != "maxsat" {
				return false
			}
			for i, q := range h.Params {
				if i < len(args) && isNamed(q.Type(), "maxsat", "Algorithm") && args[i].v != nil {
					alg = args[i]
				}
			}
			if fm, ok := msFam[dotted(h)]; ok {
				reached[fm] = true
				return false
			}
			return true
		}
		w.Run(f, nil, 5)
		if len(reached) == 0 {
			k.openf("constructor maxsat.%s: no algorithm reached", name)
			continue
		}
		k.c.Cond(len(reached) == 1 && reached[name], "option-algorithm", "constructor maxsat."+name, k.p.pos(f.Pos()), "makes a solver for "+keysOf(reached))
	}
}

// pgMode: Plaisted-Greenbaum with or without NNF, as configured.
func (k *c15) pgMode() {
	ctorArg := func(c *ssa.CallCommon) (ssa.Value, bool) {
		g := staticCallee(c)
		if g == nil || !inModule(g) {
			return nil, false
		}
		n := ptrNamed1(g.Signature.Results())
		if n == nil || n.Obj().Name() != "pgOnSolver" {
			return nil, false
		}
		// the parameter stored to the flag that decides about the NNF
		nb := 0
		var arg ssa.Value
		for i, q := range g.Params {
			if b, ok := q.Type().(*types.Basic); ok && b.Kind() == types.Bool {
				if nb == 0 && i < len(c.Args) {
					arg = c.Args[i]
				}
				nb++
			}
		}
		return arg, arg != nil
	}
	// MaxSAT: decided when the solver is made
	if f := k.p.Func("maxsat", "newSolver"); f != nil {
		got := map[string]string{}
		for _, cn := range []string{"CNFFactory", "CNFPG", "CNFFullPG"} {
			cv := k.constant("sat", cn)
			if cv == nil {
				continue
			}
			w := &reachWalk{s: &sccp{p: k.p, Fix: fixEnum("sat", "CNFMethod", cv), memo: map[string][]cval{}}}
			got[cn] = "factory"
			w.on = func(g *ssa.Function, ci ssa.CallInstruction, args []cval, r *sccpResult) bool {
				if a, ok := ctorArg(ci.Common()); ok {
					switch c := r.get(a); {
					case c.v != nil && c.v.Kind() == constant.Bool && constant.BoolVal(c.v):
						got[cn] = "with NNF"
					case c.v != nil:
						got[cn] = "without NNF"
					default:
						got[cn] = "?"
					}
					return false
				}
				h := staticCallee(ci.Common())
				return h != nil && inModule(h) && shortPkg(pkgOf(h)) == "maxsat"
			}
			w.Run(f, nil, 3)
		}
		for cn, want := range map[string]string{"CNFFactory": "factory", "CNFPG": "with NNF", "CNFFullPG": "without NNF"} {
			if got[cn] == "?" || got[cn] == "" || got["CNFPG"] == "factory" && got["CNFFullPG"] == "factory" {
				k.openf("MaxSAT %s: not resolved", cn)
				continue
			}
			k.c.Cond(got[cn] == want, "option-algorithm", "MaxSAT clauses "+cn, k.p.pos(f.Pos()), "under "+cn+" the hard and soft formulas are converted "+got[cn])
		}
	} else {
		k.openf("maxsat.newSolver not found")
	}
	// SAT: two transformations, one of them chosen when a formula is added
	if f := k.p.Func("sat", "Solver.Add"); f != nil {
		modeOf := map[string]string{} // field of Solver -> mode
		for _, g := range k.p.Funcs {
			if !inModule(g) || shortPkg(pkgOf(g)) != "sat" {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					c, ok := st.Val.(*ssa.Call)
					if !ok {
						continue
					}
					a, ok := ctorArg(&c.Call)
					if !ok {
						continue
					}
					name := fieldName(deref(fa.X.Type()), fa.Field)
					m := "?"
					if cc, ok := a.(*ssa.Const); ok && cc.Value != nil {
						m = "without NNF"
						if constant.BoolVal(cc.Value) {
							m = "with NNF"
						}
					}
					if o, had := modeOf[name]; had && o != m {
						m = "?"
					}
					modeOf[name] = m
				}
			}
		}
		for cn, want := range map[string]string{"CNFPG": "with NNF", "CNFFullPG": "without NNF"} {
			cv := k.constant("sat", cn)
			if cv == nil {
				continue
			}
			got := map[string]bool{}
			w := &reachWalk{s: &sccp{p: k.p, Fix: fixEnum("sat", "CNFMethod", cv), memo: map[string][]cval{}}}
			w.on = func(g *ssa.Function, ci ssa.CallInstruction, args []cval, r *sccpResult) bool {
				h := staticCallee(ci.Common())
				if h == nil || !inModule(h) || shortPkg(pkgOf(h)) != "sat" {
					return false
				}
				if dotted(h) == "sat.pgOnSolver.addCNFToSolver" {
					for _, fl := range recvFields(ci.Common().Args[0], r, 0) {
						m := modeOf[fl]
						if m == "" {
							m = "?"
						}
						got[m] = true
					}
					return false
				}
				return true
			}
			w.Run(f, nil, 5)
			if len(got) == 0 || got["?"] {
				k.openf("SAT %s: not resolved (%v)", cn, got)
				continue
			}
			k.c.Cond(len(got) == 1 && got[want], "option-algorithm", "SAT clauses "+cn, k.p.pos(f.Pos()), "under "+cn+" formulas are converted "+keysOf(got))
		}
	}
}

func recvFields(v ssa.Value, r *sccpResult, d int) []string {
	if d > 4 {
		return []string{"?"}
	}
	if _, f := loadsField(v); f != "" {
		return []string{f}
	}
	if ph, ok := v.(*ssa.Phi); ok {
		var out []string
		for i, e := range ph.Edges {
			if r.Edges[[2]*ssa.BasicBlock{ph.Block().Preds[i], ph.Block()}] {
				out = append(out, recvFields(e, r, d+1)...)
			}
		}
		return out
	}
	return []string{"?"}
}

func ptrNamed1(tp *types.Tuple) *types.Named {
	if tp.Len() != 1 {
		return nil
	}
	return ptrNamed(tp.At(0).Type())
}

// minimization: none, basic and deep clause minimization are three different
// ways through the function.
func (k *c15) minimization() {
	f := k.p.Func("sat", "CoreSolver.simplifyClause")
	if f == nil {
		k.openf("clause minimization: function not found")
		return
	}
	// literals of a learnt clause are dropped only if a minimization is on:
	// under None no element is overwritten before the block common to all.
	reach := map[string]map[*ssa.BasicBlock]bool{}
	for _, cn := range []string{"ClauseMinNone", "ClauseMinBasic", "ClauseMinDeep"} {
		cv := k.constant("sat", cn)
		if cv == nil {
			return
		}
		reach[cn] = (&sccp{p: k.p, Fix: fixEnum("sat", "ClauseMinimization", cv)}).Run(f, nil).Reach
	}
	only := func(a, b string) int {
		n := 0
		for x := range reach[a] {
			if !reach[b][x] {
				n++
			}
		}
		return n
	}
	if only("ClauseMinDeep", "ClauseMinNone") == 0 && only("ClauseMinBasic", "ClauseMinNone") == 0 {
		k.openf("clause minimization: not decided in this function")
		return
	}
	k.c.Cond(only("ClauseMinBasic", "ClauseMinNone") > 0, "option-algorithm", "clause minimization basic differs from none", k.p.pos(f.Pos()), "under ClauseMinBasic nothing runs that would not run under ClauseMinNone")
	k.c.Cond(only("ClauseMinBasic", "ClauseMinDeep") > 0, "option-algorithm", "clause minimization basic differs from deep", k.p.pos(f.Pos()), "under ClauseMinBasic nothing runs that would not run under ClauseMinDeep")
}

// backboneSorts: which parts of a backbone are reported for which sort.
func (k *c15) backboneSorts() {
	bt, ok := k.p.Type("sat", "Backbone").(*types.Named)
	f := k.p.Func("sat", "CoreSolver.buildBackbone")
	if !ok || f == nil {
		k.openf("backbone sorts: not found")
		return
	}
	want := map[string][3]bool{"BBPos": {true, false, false}, "BBNeg": {false, true, false}, "BBBoth": {true, true, true}}
	for cn, ws := range want {
		cv := k.constant("sat", cn)
		if cv == nil {
			continue
		}
		args := make([]cval, len(f.Params))
		for i, q := range f.Params {
			if isNamed(q.Type(), "sat", "BackboneSort") {
				args[i] = cval{v: cv}
			}
		}
		r := (&sccp{p: k.p}).Run(f, args)
		for i, fl := range []string{"Positive", "Negative", "Optional"} {
			vals, found := storedIn(f, bt, fl, r)
			if !found {
				k.openf("backbone sort %s: %s is not stored here", cn, fl)
				continue
			}
			n := 0
			for _, v := range vals {
				n += appendsIn(v, r, map[ssa.Value]bool{})
			}
			k.c.Cond((n > 0) == ws[i], "option-algorithm", "backbone "+cn+" "+fl, k.p.pos(f.Pos()), fmt.Sprintf("under %s variables are reported as %s: %v", cn, fl, n > 0))
		}
	}
	// candidates
	g := k.p.Func("sat", "CoreSolver.createInitialCandidates")
	if g == nil {
		k.openf("backbone candidates: not found")
		return
	}
	for cn, ws := range want {
		for _, phase := range []bool{true, false} {
			need := phase && ws[0] || !phase && ws[1]
			if !need {
				continue
			}
			cv := k.constant("sat", cn)
			args := make([]cval, len(g.Params))
			for i, q := range g.Params {
				if isNamed(q.Type(), "sat", "BackboneSort") {
					args[i] = cval{v: cv}
				}
			}
			s := &sccp{p: k.p, FixG: func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
				if u, ok := v.(*ssa.UnOp); ok {
					if ia, ok := u.X.(*ssa.IndexAddr); ok {
						if _, fn := loadsField(ia.X); fn == "model" {
							return cval{v: constant.MakeBool(phase)}, true
						}
					}
				}
				return cval{}, false
			}}
			r := s.Run(g, args)
			n, total := 0, 0
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldName(deref(fa.X.Type()), fa.Field) == "backboneCandidates" {
							total++
							if r.Reach[b] {
								n++
							}
						}
					}
				}
			}
			if total == 0 {
				k.openf("backbone candidates %s: no store", cn)
				continue
			}
			k.c.Cond(n > 0, "option-algorithm", fmt.Sprintf("backbone candidates %s phase %v", cn, phase), k.p.pos(g.Pos()), fmt.Sprintf("under %s a variable that is %v in the model never becomes a candidate", cn, phase))
		}
	}
}

// storedIn: the values stored to a field of a fresh struct of type n.
func storedIn(f *ssa.Function, n *types.Named, field string, r *sccpResult) ([]ssa.Value, bool) {
	var out []ssa.Value
	found := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || deref(fa.X.Type()) != types.Type(n) || fieldName(deref(fa.X.Type()), fa.Field) != field {
				continue
			}
			found = true
			if r.Reach[b] {
				out = append(out, st.Val)
			}
		}
	}
	return out, found
}

// appendsIn counts the reachable appends v is made of.
func appendsIn(v ssa.Value, r *sccpResult, seen map[ssa.Value]bool) int {
	if seen[v] {
		return 0
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		n := 0
		for i, e := range x.Edges {
			if r.Edges[[2]*ssa.BasicBlock{x.Block().Preds[i], x.Block()}] {
				n += appendsIn(e, r, seen)
			}
		}
		return n
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if !r.Reach[x.Block()] {
				return 0
			}
			return 1 + appendsIn(x.Call.Args[0], r, seen)
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			n := 0
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al && r.Reach[st.Block()] {
					n += appendsIn(st.Val, r, seen)
				}
			}
			return n
		}
	}
	return 0
}

// paramRules: which option reaches which algorithm.
var paramRules = []struct {
	pkg, typ, field string
	sinks           []string
}{
	{"encoding", "Config", "BimanderGroupSize", []string{"encoding.amoBimander"}},
	{"encoding", "Config", "BimanderFixedGroupSize", []string{"encoding.amoBimander"}},
	{"encoding", "Config", "NestingGroupSize", []string{"encoding.amoNested"}},
	{"encoding", "Config", "ProductRecursiveBound", []string{"encoding.amoProduct"}},
	{"encoding", "Config", "CommanderGroupSize", []string{"encoding.amoCommander"}},
	{"normalform", "CNFConfig", "DistributionBoundary", []string{"FactorizationHandler.distributionBoundary"}},
	{"normalform", "CNFConfig", "CreatedClauseBoundary", []string{"FactorizationHandler.clauseBoundary"}},
	{"normalform", "CNFConfig", "AtomBoundary", []string{"normalform.PGCNFWithBoundary", "normalform.TseitinCNFWithBoundary"}},
	{"sat", "Config", "InitialPhase", []string{"pgOnSolver.initialPhase", "sat.CoreSolver.NewVar"}},
	{"simplification", "Config", "RatingFunction", []string{"simplification.FactorOut"}},
	{"maxsat", "Config", "Symmetry", []string{"wbo.symmetryStrategy"}},
	{"maxsat", "Config", "Limit", []string{"wbo.symmetryBreakingLimit"}},
	{"maxsat", "Config", "BMO", []string{"linearSU.bmoMode", "wmsu3.bmoMode"}},
	{"maxsat", "Config", "IncrementalStrategy", []string{"linearUS.incrementalStrategy", "msu3.incrementalStrategy", "wmsu3.incrementalStrategy"}},
	{"maxsat", "Config", "WeightStrategy", []string{"wbo.weightStrategy"}},
}

func (k *c15) params() {
	all := map[string]bool{}
	for _, pr := range paramRules {
		for _, s := range pr.sinks {
			all[s] = true
		}
	}
	read := map[string]bool{}
	for _, f := range k.p.Funcs {
		if !inModule(f) || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if t, fl := loadsField(v); t != nil {
						if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
							read[shortPkg(n.Obj().Pkg())+"."+n.Obj().Name()+"."+fl] = true
						}
					}
				}
			}
		}
	}
	for _, pr := range paramRules {
		t := k.p.Type(pr.pkg, pr.typ)
		if t == nil || !hasField(t, pr.field) {
			k.openf("option %s.%s.%s not found", pr.pkg, pr.typ, pr.field)
			continue
		}
		got := map[string]bool{}
		for _, f := range k.p.Funcs {
			if !inModule(f) || f.Synthetic != "" || shortPkg(pkgOf(f)) != pr.pkg {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if v, ok := in.(ssa.Value); ok {
						if ft, fl := loadsField(v); ft != nil && isNamed(ft, pr.pkg, pr.typ) && fl == pr.field {
							k.flow(v, all, got, map[ssa.Value]bool{}, 0)
						}
					}
				}
			}
		}
		key := pr.pkg + "." + pr.typ + "." + pr.field
		d := ""
		missing := 0
		for _, s := range pr.sinks {
			exists := false
			if strings.HasPrefix(s, pr.pkg+".") {
				exists = k.fn(s) != nil
			} else {
				i := strings.Index(s, ".")
				if st := k.p.Type(pr.pkg, s[:i]); st != nil {
					exists = hasField(st, s[i+1:])
				}
			}
			if !exists {
				missing++
				continue
			}
			if !got[s] {
				d = fmt.Sprintf("the option does not reach %s", s)
			}
		}
		for s := range got {
			if !inStrs(pr.sinks, s) {
				d = fmt.Sprintf("the option reaches %s, which is parametrized by another one", s)
			}
		}
		if missing > 0 && d == "" || missing == len(pr.sinks) {
			k.openf("option %s: destination renamed", key)
			continue
		}
		k.c.Cond(d == "", "option-parameter", key, "", d)
	}
	// no option is ignored
	for _, cf := range k.confs {
		st := structOf(cf.named)
		if st == nil {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			if !fl.Exported() {
				continue
			}
			id := confShort(cf) + "." + fl.Name()
			if strings.HasPrefix(cf.named.Obj().Pkg().Path(), modPath) {
				id = shortPkg(cf.named.Obj().Pkg()) + "." + cf.named.Obj().Name() + "." + fl.Name()
			}
			k.c.Cond(read[id], "option-parameter", id+" is used", k.p.pos(fl.Pos()), "the option is never read")
		}
	}
}

func hasField(t types.Type, name string) bool {
	st := structOf(t)
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
	}
	return false
}

// flow follows a value forward to the sinks it reaches.
func (k *c15) flow(v ssa.Value, all, got map[string]bool, seen map[ssa.Value]bool, d int) {
	if seen[v] || d > 12 || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.Phi:
			k.flow(x, all, got, seen, d+1)
		case *ssa.Convert:
			k.flow(x, all, got, seen, d+1)
		case *ssa.ChangeType:
			k.flow(x, all, got, seen, d+1)
		case *ssa.BinOp:
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
				k.flow(x, all, got, seen, d+1)
			}
		case *ssa.UnOp:
			k.flow(x, all, got, seen, d+1)
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			switch a := x.Addr.(type) {
			case *ssa.FieldAddr:
				t := deref(a.X.Type())
				if n, ok := t.(*types.Named); ok {
					s := n.Obj().Name() + "." + fieldName(t, a.Field)
					if all[s] {
						got[s] = true
					}
				}
			case *ssa.IndexAddr:
				// one of the variadic arguments of a call
				if al, ok := a.X.(*ssa.Alloc); ok {
					for _, rr := range *al.Referrers() {
						if sl, ok := rr.(*ssa.Slice); ok {
							k.flow(sl, all, got, seen, d+1)
						}
					}
				}
			case *ssa.Alloc:
				for _, rr := range *a.Referrers() {
					if u, ok := rr.(*ssa.UnOp); ok {
						k.flow(u, all, got, seen, d+1)
					}
				}
			}
		case ssa.CallInstruction:
			g := staticCallee(x.Common())
			if g == nil || !inModule(g) {
				continue
			}
			for i, a := range x.Common().Args {
				if a != v {
					continue
				}
				if all[dotted(g)] {
					got[dotted(g)] = true
				} else if cg := canonOf(g); i < len(cg.Params) && len(cg.Blocks) > 0 {
					k.flow(cg.Params[i], all, got, seen, d+1)
				}
			}
		case *ssa.Return:
			// results of a helper
			for _, cs := range k.p.callsOf(x.Parent()) {
				if c, ok := cs.(*ssa.Call); ok && len(x.Results) == 1 {
					k.flow(c, all, got, seen, d+1)
				}
			}
		}
	}
}

// effect is what a builder stores: field -> "true", "false", "param", "append",
// "?".
func (k *c15) effect(f *ssa.Function, recv ssa.Value, owner types.Type, bind map[ssa.Value]string, d int, out map[string]string) {
	val := func(v ssa.Value) string { return k.builtFrom(v, bind, 0) }
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || deref(fa.X.Type()) != owner {
					continue
				}
				name := fieldName(owner, fa.Field)
				s := val(x.Val)
				if o, had := out[name]; had && o != s {
					s = "?"
				}
				out[name] = s
			case *ssa.Call:
				g := staticCallee(&x.Call)
				if g == nil || !inModule(g) || d > 3 || len(g.Blocks) == 0 {
					continue
				}
				touches := false
				nb := map[ssa.Value]string{}
				for i, a := range x.Call.Args {
					if i < len(g.Params) {
						if q, ok := a.Type().(*types.Pointer); ok && q.Elem() == owner {
							touches = true
						} else if isSliceT(a.Type()) && k.uses(a, bind, map[ssa.Value]bool{}, 0) {
							nb[g.Params[i]] = "param"
						} else if s := val(a); s != "?" {
							nb[g.Params[i]] = s
						}
					}
				}
				if touches || g.Signature.Results().Len() == 1 && deref(g.Signature.Results().At(0).Type()) == owner {
					k.effect(g, nil, owner, nb, d+1, out)
				}
			}
		}
	}
}

// builtFrom says what a value is: a boolean constant, the parameter, or a list
// that is appended to with (things made from) the parameter.
func (k *c15) builtFrom(v ssa.Value, bind map[ssa.Value]string, d int) string {
	if d > 10 {
		return "?"
	}
	if s, ok := bind[v]; ok {
		return s
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return fmt.Sprint(constant.BoolVal(x.Value))
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if _, f := loadsField(x.Call.Args[0]); f == "" {
				if _, ok := x.Call.Args[0].(*ssa.Phi); !ok {
					return "replace"
				}
			}
			if k.uses(x.Call.Args[1], bind, map[ssa.Value]bool{}, 0) {
				return "append"
			}
			return "append nothing given"
		}
		if g := staticCallee(&x.Call); g != nil {
			for _, a := range x.Call.Args {
				if s := k.builtFrom(a, bind, d+1); s == "param" {
					return "param"
				}
			}
		}
	case *ssa.Phi:
		out := ""
		for _, e := range x.Edges {
			if e == v {
				continue
			}
			s := k.builtFrom(e, bind, d+1)
			if s == "?" {
				if _, f := loadsField(e); f != "" {
					continue
				}
			}
			if out != "" && out != s {
				return "?"
			}
			out = s
		}
		return out
	case *ssa.Convert:
		return k.builtFrom(x.X, bind, d+1)
	case *ssa.ChangeType:
		return k.builtFrom(x.X, bind, d+1)
	case *ssa.UnOp:
		if x.Op.String() == "!" {
			if k.builtFrom(x.X, bind, d+1) == "param" {
				return "the negation of the parameter"
			}
		}
	}
	return "?"
}

// uses reports whether v is made from the parameter.
func (k *c15) uses(v ssa.Value, bind map[ssa.Value]string, seen map[ssa.Value]bool, d int) bool {
	if seen[v] || d > 14 {
		return false
	}
	seen[v] = true
	if bind[v] == "param" {
		return true
	}
	_, isMake := v.(*ssa.MakeSlice)
	if al, ok := v.(*ssa.Alloc); ok || isMake {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Addr == al && k.uses(x.Val, bind, seen, d+1) {
					return true
				}
			case *ssa.IndexAddr:
				for _, rr := range *x.Referrers() {
					if st, ok := rr.(*ssa.Store); ok && st.Addr == x && k.uses(st.Val, bind, seen, d+1) {
						return true
					}
				}
			}
		}
		return false
	}
	if in, ok := v.(ssa.Instruction); ok {
		for _, op := range in.Operands(nil) {
			if *op != nil && k.uses(*op, bind, seen, d+1) {
				return true
			}
		}
	}
	return false
}

func (k *c15) effectOf(f *ssa.Function, owner types.Type) map[string]string {
	out := map[string]string{}
	bind := map[ssa.Value]string{}
	first := 0
	if f.Signature.Recv() != nil {
		first = 1
	}
	for _, q := range f.Params[first:] {
		bind[q] = "param"
	}
	k.effect(f, nil, owner, bind, 0, out)
	return out
}

func showEff(m map[string]string) string {
	var s []string
	for f, v := range m {
		s = append(s, f+": "+v)
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

func (k *c15) setters() {
	for _, t := range []struct{ method, field string }{
		{"Config.CNF", "CNFMethod"}, {"Config.ClauseMin", "ClauseMinimization"}, {"Config.InitPhase", "InitialPhase"},
		{"Config.Proofs", "ProofGeneration"}, {"Config.UseAtMost", "UseAtMostClauses"},
	} {
		f := k.p.Func("sat", t.method)
		ct := k.p.Type("sat", "Config")
		if f == nil || ct == nil || !hasField(ct, t.field) {
			k.openf("setter sat.%s not found", t.method)
			continue
		}
		e := k.effectOf(f, ct)
		d := ""
		if len(e) == 1 && e[t.field] == "?" {
			if !k.setterCases(f, ct, t.field) {
				k.openf("setter sat.%s: not resolved", t.method)
				continue
			}
		} else if len(e) != 1 || e[t.field] != "param" {
			d = "it sets " + showEff(e)
		}
		k.c.Cond(d == "", "option-setter", "sat."+t.method, k.p.pos(f.Pos()), d)
		k.returnsRecv(f, "sat."+t.method)
	}
	pt := k.p.Type("sat", "CallParams")
	if pt == nil {
		k.openf("sat.CallParams not found")
		return
	}
	// where the additional propositions go: what initCall gets from Call
	for _, m := range []string{"Variable", "Literal", "Formula", "Proposition"} {
		f := k.p.Func("sat", "CallParams."+m)
		if f == nil {
			k.openf("CallParams.%s not found", m)
			continue
		}
		e := k.effectOf(f, pt)
		d := ""
		if len(e) != 1 {
			d = "it sets " + showEff(e)
		}
		for _, v := range e {
			switch v {
			case "append":
			case "?":
				k.openf("CallParams.%s: not resolved", m)
			default:
				d = "what was asked before is not kept or what is given is not added: " + showEff(e)
			}
		}
		k.c.Cond(d == "", "option-setter", "sat.CallParams."+m, k.p.pos(f.Pos()), d)
		k.returnsRecv(f, "sat.CallParams."+m)
	}
	for _, m := range []string{"Handler", "WithModel", "WithCore", "WithUPZeros"} {
		if f := k.p.Func("sat", "CallParams."+m); f != nil {
			k.returnsRecv(f, "sat.CallParams."+m)
		}
	}
}

// setterCases: a setter of a boolean that stores one constant or the other.
func (k *c15) setterCases(f *ssa.Function, t types.Type, field string) bool {
	if len(f.Params) != 2 {
		return false
	}
	for _, v := range []bool{true, false} {
		c := cval{v: constant.MakeBool(v)}
		r := (&sccp{p: k.p, memo: map[string][]cval{}}).Run(f, []cval{cBottom, c})
		n := 0
		for b := range r.Reach {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && deref(fa.X.Type()) == t && fieldName(t, fa.Field) == field {
						if !r.get(st.Val).eq(c) {
							return false
						}
						n++
					}
				}
			}
		}
		if n == 0 {
			return false
		}
	}
	return true
}

// sameSignature compares parameters (without the receiver) and results.
func sameSignature(f *ssa.Function, sig *types.Signature) bool {
	return types.Identical(f.Signature.Params(), sig.Params()) && types.Identical(f.Signature.Results(), sig.Results())
}

// funcsBehind are the functions a function value can be, as far as it is
// chosen between functions known by name.
func funcsBehind(v ssa.Value, r *sccpResult, d int) ([]*ssa.Function, bool) {
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{canonOf(x)}, true
	case *ssa.MakeClosure:
		if g, ok := x.Fn.(*ssa.Function); ok {
			return []*ssa.Function{canonOf(g)}, true
		}
	case *ssa.ChangeType:
		return funcsBehind(x.X, r, d+1)
	case *ssa.Phi:
		if d > 6 {
			return nil, false
		}
		var out []*ssa.Function
		for i, e := range x.Edges {
			if !r.Edges[[2]*ssa.BasicBlock{x.Block().Preds[i], x.Block()}] {
				continue
			}
			fs, ok := funcsBehind(e, r, d+1)
			if !ok {
				return nil, false
			}
			out = append(out, fs...)
		}
		return out, true
	}
	return nil, false
}

func (k *c15) returnsRecv(f *ssa.Function, key string) {
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			continue
		}
		switch x := ret.Results[0].(type) {
		case *ssa.Parameter:
			k.c.Cond(x == f.Params[0], "option-setter", key+" returns its receiver", k.p.pos(ret.Pos()), "something else than the receiver is returned")
		case *ssa.Alloc, *ssa.Const:
			k.c.Bad("option-setter", key+" returns its receiver", k.p.pos(ret.Pos()), "something else than the receiver is returned")
		}
	}
}

// satCall: what a SAT call computes besides the answer.
func (k *c15) satCall() {
	call := k.p.Func("sat", "Solver.Call")
	pt := k.p.Type("sat", "CallParams")
	if call == nil || pt == nil {
		k.openf("sat.Solver.Call not found")
		return
	}
	prods := []struct{ fn, what string }{{"Solver.computeModel", "model"}, {"Solver.computeUnsatCore", "core"}, {"Solver.computeUpZeroLits", "propagated literals"}}
	asks := map[string]string{
		"Params": "", "WithModel": "model", "WithCore": "core", "WithAssumptions": "", "WithHandler": "",
		"CallParams.WithModel": "model", "CallParams.WithCore": "core", "CallParams.WithUPZeros": "propagated literals", "CallParams.Handler": "",
		"CallParams.Variable": "", "CallParams.Literal": "", "CallParams.Formula": "", "CallParams.Proposition": "",
	}
	var names []string
	for n := range asks {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, bn := range names {
		bf := k.p.Func("sat", bn)
		if bf == nil {
			k.openf("sat.%s not found", bn)
			continue
		}
		e := k.effectOf(bf, pt)
		unk := false
		for f, v := range e {
			if b, ok := fieldTypeC(pt, f).(*types.Basic); ok && b.Kind() == types.Bool && v != "true" && v != "false" {
				unk = true
			}
		}
		if unk {
			k.openf("sat.%s: %s", bn, showEff(e))
			continue
		}
		for _, succ := range []bool{true, false} {
			for _, isSat := range []bool{true, false} {
				reached := map[string]bool{}
				varsOK := true
				fix := func(v ssa.Value) (cval, bool) {
					t, f := loadsField(v)
					if t == nil {
						return cval{}, false
					}
					b, ok := v.Type().Underlying().(*types.Basic)
					if !ok || b.Kind() != types.Bool {
						return cval{}, false
					}
					switch {
					case t == pt:
						return cval{v: constant.MakeBool(e[f] == "true")}, true
					case isNamed(t, "handler", "State") && f == "Success":
						return cval{v: constant.MakeBool(succ)}, true
					case f == "ProofGeneration":
						return cval{v: constant.MakeBool(true)}, true
					case isNamed(t, "sat", "call"):
						return cval{v: constant.MakeBool(isSat)}, true
					}
					return cval{}, false
				}
				w := &reachWalk{s: &sccp{p: k.p, Fix: fix, memo: map[string][]cval{}}}
				w.on = func(f *ssa.Function, ci ssa.CallInstruction, args []cval, r *sccpResult) bool {
					g := staticCallee(ci.Common())
					if g == nil || !inModule(g) || shortPkg(pkgOf(g)) != "sat" {
						return false
					}
					for _, pr := range prods {
						if dotted(g) == "sat."+pr.fn {
							reached[pr.what] = true
							if pr.what == "model" && len(ci.Common().Args) > 1 {
								t, fl := loadsField(ci.Common().Args[1])
								if t == pt && asks[bn] == "model" && e[fl] != "param" {
									varsOK = false
								}
							}
							return false
						}
					}
					// helpers of the call that are handed the parameters or the call
					for _, a := range ci.Common().Args {
						if deref(a.Type()) == pt || isNamed(deref(a.Type()), "sat", "call") {
							return true
						}
					}
					return false
				}
				w.Run(call, nil, 3)
				for _, pr := range prods {
					if k.p.Func("sat", pr.fn) == nil {
						k.openf("sat.%s not found", pr.fn)
						continue
					}
					want := asks[bn] == pr.what && succ && isSat == (pr.what != "core")
					d := ""
					if reached[pr.what] != want {
						d = fmt.Sprintf("after %s, with a call that succeeded=%v and was satisfiable=%v, the %s is computed: %v", bn, succ, isSat, pr.what, reached[pr.what])
					}
					k.c.Cond(d == "", "sat-call-asked", fmt.Sprintf("%s: %s success=%v sat=%v", bn, pr.what, succ, isSat), k.p.pos(call.Pos()), d)
				}
				k.c.Cond(varsOK, "sat-call-asked", bn+": variables of the model", k.p.pos(call.Pos()), "the model is not computed for the variables that were given")
			}
		}
	}
	k.callHands(call, pt)
	k.callResult(call)
}

// callHands: what was asked with the parameters of a call reaches the one who
// does it.
func (k *c15) callHands(call *ssa.Function, pt types.Type) {
	got := map[string]string{}
	fix := func(v ssa.Value, get func(ssa.Value) cval) (cval, bool) {
		if v == call.Params[len(call.Params)-1] {
			return cval{sym: "params"}, true
		}
		if t, f := loadsField(v); t != nil {
			if t != pt {
				if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					return cBottom, true
				}
				return cval{}, false
			}
			var base ssa.Value
			switch x := v.(type) {
			case *ssa.UnOp:
				base = x.X.(*ssa.FieldAddr).X
			case *ssa.Field:
				base = x.X
			}
			if s := get(base).sym; s != "" {
				return cval{sym: s + "." + f}, true
			}
			return cBottom, true
		}
		switch x := v.(type) {
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && get(x.Call.Args[0]).sym == "params" {
				return cval{v: constant.MakeInt64(1)}, true
			}
		case *ssa.BinOp:
			a, b := get(x.X), get(x.Y)
			if a.sym == "" {
				a, b = b, a
			}
			if a.sym != "" && b.nil_ && (x.Op.String() == "==" || x.Op.String() == "!=") {
				return cval{v: constant.MakeBool(x.Op.String() == "!=")}, true
			}
		case *ssa.UnOp:
			if ia, ok := x.X.(*ssa.IndexAddr); ok && get(ia.X).sym == "params" {
				return cval{sym: "params[]"}, true
			}
			if s := get(x.X).sym; s != "" && x.Op.String() == "*" {
				return cval{sym: s}, true
			}
		}
		return cval{}, false
	}
	note := func(what string, v cval) {
		s := v.sym
		switch {
		case s != "":
		case v.nil_:
			s = "nothing"
		case v.nonnil:
			s = "something else"
		default:
			s = "?"
		}
		if o := got[what]; o == "" || o == s {
			got[what] = s
		} else {
			got[what] = "?"
		}
	}
	w := &reachWalk{s: &sccp{p: k.p, FixG: fix, memo: map[string][]cval{}}}
	w.on = func(f *ssa.Function, ci ssa.CallInstruction, args []cval, r *sccpResult) bool {
		g := staticCallee(ci.Common())
		if g == nil || !inModule(g) || shortPkg(pkgOf(g)) != "sat" {
			return false
		}
		switch dotted(g) {
		case "sat.Solver.computeModel":
			if len(args) == 2 {
				note("the variables of the model", args[1])
			}
			return false
		case "sat.CoreSolver.Solve":
			for i, a := range ci.Common().Args {
				if isHandlerT(a.Type()) {
					note("the handler", args[i])
				}
			}
			return false
		}
		if strings.HasPrefix(dotted(g), "sat.CoreSolver.") {
			return false
		}
		for i, a := range ci.Common().Args {
			if args[i].sym != "" && isSliceT(a.Type()) && strings.Contains(a.Type().String(), "Proposition") {
				note("the additional propositions", args[i])
				return true
			}
		}
		for i := range args {
			if args[i].sym != "" {
				return true
			}
		}
		return false
	}
	args := make([]cval, len(call.Params))
	args[len(args)-1] = cval{sym: "params"}
	w.Run(call, args, 4)
	for what, want := range map[string]string{"the variables of the model": "params[].modelVars", "the handler": "params[].hdl", "the additional propositions": "params[].addProps"} {
		g := got[what]
		if g == "?" || g == "" && what != "the additional propositions" {
			k.openf("sat call: %s not resolved", what)
			continue
		}
		if g == "" {
			g = "nothing"
		}
		k.c.Cond(g == want, "sat-call-asked", what, k.p.pos(call.Pos()), fmt.Sprintf("a call is made with %s instead of %s", g, want))
	}
}

func fieldTypeC(t types.Type, name string) types.Type {
	st := structOf(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type().Underlying()
		}
	}
	return nil
}

func (k *c15) callResult(call *ssa.Function) {
	rt, ok := k.p.Type("sat", "CallResult").(*types.Named)
	if !ok {
		k.openf("sat.CallResult not found")
		return
	}
	r := (&sccp{p: k.p}).Run(call, nil)
	prodIn := func(field string) (map[string]bool, bool) {
		vals, found := storedIn(call, rt, field, r)
		out := map[string]bool{}
		for _, v := range vals {
			k.calls(v, out, map[ssa.Value]bool{})
		}
		return out, found
	}
	for _, t := range []struct{ acc, prod string }{{"CallResult.Model", "sat.Solver.computeModel"}, {"CallResult.UnsatCore", "sat.Solver.computeUnsatCore"}, {"CallResult.UpZeroLits", "sat.Solver.computeUpZeroLits"}} {
		f := k.p.Func("sat", t.acc)
		if f == nil || k.fn(t.prod) == nil {
			k.openf("%s or %s not found", t.acc, t.prod)
			continue
		}
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			ft, fl := loadsField(ret.Results[0])
			if ft != types.Type(rt) {
				k.openf("%s: not a plain field", t.acc)
				continue
			}
			ps, found := prodIn(fl)
			if !found {
				k.openf("%s: %s is not stored in Call", t.acc, fl)
				continue
			}
			k.c.Cond(ps[t.prod] && len(ps) == 1, "sat-call-result", t.acc, k.p.pos(ret.Pos()), "it returns what "+keysOf(ps)+" computed")
		}
	}
	// OK, Canceled, Sat
	for _, succ := range []bool{true, false} {
		for acc, want := range map[string]bool{"CallResult.OK": succ, "CallResult.Canceled": !succ} {
			f := k.p.Func("sat", acc)
			if f == nil {
				k.openf("%s not found", acc)
				continue
			}
			s := &sccp{p: k.p, Fix: func(v ssa.Value) (cval, bool) {
				if t, fl := loadsField(v); t != nil && isNamed(t, "handler", "State") && fl == "Success" {
					return cval{v: constant.MakeBool(succ)}, true
				}
				return cval{}, false
			}}
			res := s.Run(f, nil).Results
			if len(res) != 1 || res[0].v == nil {
				k.openf("%s: not resolved", acc)
				continue
			}
			k.c.Cond(constant.BoolVal(res[0].v) == want, "sat-call-result", fmt.Sprintf("%s success=%v", acc, succ), k.p.pos(f.Pos()), "it says the opposite of the state")
		}
	}
	// satisfiable exactly if the solver answered true
	for _, f := range k.p.Funcs {
		if !inModule(f) || shortPkg(pkgOf(f)) != "sat" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isNamed(deref(fa.X.Type()), "sat", "call") {
					continue
				}
				if bt, ok := st.Val.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
					continue
				}
				for _, tri := range []string{"TristateTrue", "TristateFalse", "TristateUndef"} {
					cv := k.constant("formula", tri)
					if cv == nil {
						continue
					}
					s := &sccp{p: k.p, Fix: func(v ssa.Value) (cval, bool) {
						if e, ok := v.(*ssa.Extract); ok && isNamed(e.Type(), "formula", "Tristate") {
							return cval{v: cv}, true
						}
						return cval{}, false
					}}
					res := s.Run(f, nil)
					if !res.Reach[b] {
						continue
					}
					c := res.get(st.Val)
					if c.v == nil {
						k.openf("call satisfiable under %s: not resolved", tri)
						continue
					}
					k.c.Cond(constant.BoolVal(c.v) == (tri == "TristateTrue"), "sat-call-result", "satisfiable under "+tri, k.p.pos(st.Pos()), fmt.Sprintf("when the solver answers %s the call says satisfiable=%v", tri, constant.BoolVal(c.v)))
				}
			}
		}
	}
}

// calls collects the module functions a value comes from.
func (k *c15) calls(v ssa.Value, out map[string]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			k.calls(e, out, seen)
		}
	case *ssa.Call:
		if g := staticCallee(&x.Call); g != nil {
			out[dotted(g)] = true
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
					k.calls(st.Val, out, seen)
				}
			}
		}
	}
}

// variants: F(args) and FWithHandler(args, hdl) agree on what they are given.
func (k *c15) variants() {
	for _, f := range k.p.Funcs {
		if f.Synthetic != "" || !inModule(f) || f.Parent() != nil || !exported(f) || len(f.Blocks) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := staticCallee(&c.Call)
				if g == nil || !inModule(g) || g == f || pkgOf(g) != pkgOf(f) {
					continue
				}
				k.variadic(f, g, c)
				n := g.Name()
				if n == f.Name() || !strings.HasPrefix(n, f.Name()) || f.Name() == "DefaultConfig" || !(strings.HasSuffix(n, "Handler") || strings.HasSuffix(n, "Config")) {
					continue
				}
				k.variant(f, g, c)
			}
		}
	}
}

// variadic: optional arguments are handed to a function that takes the same
// ones.
func (k *c15) variadic(f, g *ssa.Function, c *ssa.Call) {
	if !f.Signature.Variadic() || !g.Signature.Variadic() || !exported(g) {
		return
	}
	fp, gp := f.Params[len(f.Params)-1], g.Params[len(g.Params)-1]
	if fp.Name() != gp.Name() || !types.Identical(fp.Type(), gp.Type()) || k.confOf(fp.Type()) != nil || len(c.Call.Args) != len(g.Params) {
		return
	}
	a := c.Call.Args[len(g.Params)-1]
	if a != fp && !k.uses(a, map[ssa.Value]string{fp: "param"}, map[ssa.Value]bool{}, 0) {
		k.c.Bad("variant-same", rel(f)+" -> "+rel(g)+" "+fp.Name(), k.p.pos(c.Pos()), fmt.Sprintf("%s does not get %s", rel(g), fp.Name()))
		return
	}
	k.c.Ok("variant-same", rel(f)+" -> "+rel(g)+" "+fp.Name(), k.p.pos(c.Pos()))
}

func (k *c15) variant(f, g *ssa.Function, c *ssa.Call) {
	if len(g.Params) != len(f.Params)+1 || len(c.Call.Args) != len(g.Params) {
		k.openf("variant %s: another number of arguments than %s", rel(f), rel(g))
		return
	}
	// the parameters of g without the handler or configuration are those of f
	j := 0
	for i, q := range g.Params {
		if j >= len(f.Params) {
			break
		}
		if !types.Identical(q.Type(), f.Params[j].Type()) {
			if i == j {
				continue
			}
			k.openf("variant %s: other parameters than %s", rel(f), rel(g))
			return
		}
		if isHandlerT(q.Type()) || k.confOf(q.Type()) != nil && !isSliceT(q.Type()) {
			continue
		}
		a := c.Call.Args[i]
		for {
			if ct, ok := a.(*ssa.ChangeType); ok {
				a = ct.X
				continue
			}
			break
		}
		d := ""
		switch x := a.(type) {
		case *ssa.Parameter:
			if x != f.Params[j] {
				d = fmt.Sprintf("%s gets %s in the place of %s", rel(g), x.Name(), f.Params[j].Name())
			}
		case *ssa.Const:
			d = fmt.Sprintf("%s does not get %s", rel(g), f.Params[j].Name())
		default:
			if !k.uses(a, map[ssa.Value]string{f.Params[j]: "param"}, map[ssa.Value]bool{}, 0) {
				d = fmt.Sprintf("%s does not get %s", rel(g), f.Params[j].Name())
			}
		}
		k.c.Cond(d == "", "variant-same", rel(f)+" "+fmt.Sprint(j), k.p.pos(c.Pos()), d)
		j++
	}
	// and its result
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i, v := range ret.Results {
			if cc, ok := v.(*ssa.Const); ok && (cc.Value == nil) && reachableFrom(c.Block(), b) {
				k.c.Bad("variant-same", rel(f)+" result", k.p.pos(ret.Pos()), fmt.Sprintf("result %d of %s is thrown away", i, rel(g)))
			}
		}
	}
}

func isHandlerT(t types.Type) bool { return isNamed(t, "handler", "Handler") }

func reachableFrom(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(a)
}
