package main

import (
	"fmt"
	"strings"
)

// kModelCases are the functions that give formulas, models and counts.
func kModelCases(k *kRun) []*kCase {
	var cs []*kCase
	add := func(rule, fn, name string, args func(k *kRun, st *dst) []dval, check func(k *kRun, o dout) (string, string)) {
		cs = append(cs, &kCase{rule: rule, fn: fn, name: name, args: args, check: check})
	}
	one := func(k *kRun, st *dst) dval {
		k.in = []dval{k.d.freshNode(st)}
		return k.in[0]
	}
	formula := func(k *kRun, o dout, want tt) (string, string) {
		if len(o.rets) == 0 {
			return "", "unknown result"
		}
		got, ok := k.d.den(o.st, o.rets[0])
		if !ok {
			return "", "unknown result"
		}
		if diff := o.st.pc.and(got.iff(want).not()); !diff.isFalse() {
			if o.st.guess {
				return "", "depends on an unknown condition"
			}
			return "the formula denotes another function (" + k.p.pos(o.ret.Pos()) + ")", ""
		}
		return "", ""
	}
	// formulas
	for _, f := range []int{0, 1} {
		f := f
		add("formula", "Kernel.toFormulaRec", fmt.Sprint("flag ", f), func(k *kRun, st *dst) []dval {
			return []dval{k.kp, k.d.unk(), one(k, st), dInt(f)}
		}, func(k *kRun, o dout) (string, string) {
			w := k.n(o.st, 0).t
			if f == 0 {
				w = w.not()
			}
			return formula(k, o, w)
		})
		add("formula", "Kernel.toFormula", fmt.Sprint("flag ", f), func(k *kRun, st *dst) []dval {
			return []dval{k.kp, k.d.unk(), one(k, st), dInt(f)}
		}, func(k *kRun, o dout) (string, string) {
			return formula(k, o, k.n(o.st, 0).t)
		})
		add("formula", "BDD.ToFormula", fmt.Sprint("flag ", f), func(k *kRun, st *dst) []dval {
			b := k.bdd(st, one(k, st))
			return []dval{b, k.d.unk(), k.d.list(st, []dval{dInt(f)})}
		}, func(k *kRun, o dout) (string, string) {
			for _, e := range o.st.k.evs {
				if e.what == "flag" && e.args[0] != dval(dInt(f)) {
					return "the paths asked for are not the ones that are followed", ""
				}
			}
			return formula(k, o, k.n(o.st, 0).t)
		})
	}
	add("formula", "BDD.ToFormula", "no flag", func(k *kRun, st *dst) []dval {
		return []dval{k.bdd(st, one(k, st)), k.d.unk(), dNil{}}
	}, func(k *kRun, o dout) (string, string) {
		return formula(k, o, k.n(o.st, 0).t)
	})
	var lists [][][]int
	for a := 0; a < 3; a++ {
		for b := 0; b < 3; b++ {
			lists = append(lists, [][]int{{a, b}})
		}
	}
	lists = append(lists, nil, [][]int{{0, 1}, {1, 2}}, [][]int{{1, 0}, {0, 0}}, [][]int{{0, 2}, {1, 1}})
	for _, fn := range []string{"BDD.CNF", "BDD.DNF"} {
		for _, l := range lists {
			l, fn := l, fn
			add("formula", fn, "", func(k *kRun, st *dst) []dval {
				b := k.bdd(st, one(k, st))
				k.extra = k.paths(st, l)
				k.onPaths = func(st *dst) tt { return k.pathsTT(st, l) }
				return []dval{b}
			}, func(k *kRun, o dout) (string, string) {
				for _, e := range o.st.k.evs {
					if (e.what == "allSat" || e.what == "allUnsat") && e.id != k.in[0].(kNode).id {
						return "the paths of another BDD are used", ""
					}
				}
				return formula(k, o, k.n(o.st, 0).t)
			})
		}
	}
	for _, c := range cs {
		c.cut = 12
	}
	// counts
	poly := func(k *kRun, o dout, v dval, want kPoly) (string, string) {
		if _, ok := v.(kCached); ok {
			return "skip", ""
		}
		for _, e := range o.st.k.evs {
			if e.what == "count changed" {
				return "the count in the cache is changed", ""
			}
		}
		p, ok := v.(dPtr)
		if !ok {
			return "", "unknown result"
		}
		got, ok := o.st.heap[p.cell].(kPoly)
		if !ok {
			return "", "unknown result"
		}
		if got != want {
			if o.st.guess {
				return "", "depends on an unknown condition"
			}
			return fmt.Sprintf("the count is %q where it should be %q (%s)", got.m, want.m, k.p.pos(o.ret.Pos())), ""
		}
		return "", ""
	}
	children := func(k *kRun, o dout) (knode, bool) {
		id := k.in[0].(kNode).id
		if o.st.k.nodes[id].mask != kInner || !k.d.expand(o.st, id) {
			return knode{}, false
		}
		return o.st.k.nodes[id], true
	}
	for _, w := range []string{"One", "Zero"} {
		what := strings.ToLower(w)
		add("count", "Kernel.pathCountRec"+w, "", func(k *kRun, st *dst) []dval {
			return []dval{k.kp, one(k, st), kTerm{"id"}}
		}, func(k *kRun, o dout) (string, string) {
			st := o.st
			want := st.count(what, k.in[0].(kNode).id)
			if n, ok := children(k, o); ok {
				want = polyAdd(st.count(what, n.lo), st.count(what, n.hi))
			}
			return poly(k, o, o.rets[0], want)
		})
	}
	add("count", "Kernel.satCountRec", "", func(k *kRun, st *dst) []dval {
		return []dval{k.kp, one(k, st), kTerm{"id"}}
	}, func(k *kRun, o dout) (string, string) {
		st := o.st
		want := st.count("models", k.in[0].(kNode).id)
		if n, ok := children(k, o); ok {
			l := st.k.nodes[n.lo].lvl
			h := st.k.nodes[n.hi].lvl
			want = polyAdd(polyMul(st.k.pow2(kLin{l, n.lvl, -1}), st.count("models", n.lo)),
				polyMul(st.k.pow2(kLin{h, n.lvl, -1}), st.count("models", n.hi)))
		}
		return poly(k, o, o.rets[0], want)
	})
	for _, x := range [][2]string{{"BDD.ModelCount", "models"}, {"BDD.PathCountOne", "one"}, {"BDD.PathCountZero", "zero"}, {"BDD.NumberOfCNFClauses", "zero"}} {
		x := x
		add("count", x[0], "", func(k *kRun, st *dst) []dval {
			return []dval{k.bdd(st, one(k, st))}
		}, func(k *kRun, o dout) (string, string) {
			id := k.in[0].(kNode).id
			want := o.st.count(x[1], id)
			if x[1] == "models" {
				want = polyMul(want, o.st.k.pow2(kLin{o.st.k.nodes[id].lvl, 0, 0}))
			}
			if c, ok := o.rets[0].(dPtr); ok && o.st.k.memo[storedKey(c.cell)] == 1 {
				return "the count in the cache is handed out", ""
			}
			return poly(k, o, o.rets[0], want)
		})
	}
	// one model
	isPath := func(k *kRun, o dout, v dval, of int) (string, string) {
		id, ok := nodeID(v)
		if !ok {
			return "", "unknown result"
		}
		n, r := o.st.k.nodes[id], o.st.k.nodes[of]
		if diff := o.st.pc.and(n.t).and(r.t.not()); !diff.isFalse() {
			if o.st.guess {
				return "", "depends on an unknown condition"
			}
			return "the path given does not lead to true", ""
		}
		if r.mask&kZero == 0 && n.mask&kZero != 0 {
			if o.st.guess {
				return "", "depends on an unknown condition"
			}
			return "no path is given where there is one", ""
		}
		if !n.cube && n.mask&kInner != 0 && !o.st.guess {
			return "what is given is not a single path", ""
		}
		if o.st.k.disor != "" && !o.st.guess {
			return o.st.k.disor, ""
		}
		return "", ""
	}
	for _, fn := range []string{"satOneRec", "fullSatOneRec"} {
		fn := fn
		add("models", "Kernel."+fn, "", func(k *kRun, st *dst) []dval {
			return []dval{k.kp, one(k, st)}
		}, func(k *kRun, o dout) (string, string) {
			st := o.st
			id := k.in[0].(kNode).id
			if bad, open := isPath(k, o, o.rets[0], id); bad != "" || open != "" || fn == "satOneRec" {
				return bad, open
			}
			n, ok := children(k, o)
			if !ok {
				return "", ""
			}
			// all levels down to the child that is followed are given
			x, _ := k.d.levelVar(st, kLin{n.lvl, 0, 0})
			rid, _ := nodeID(o.rets[0])
			c := n.lo
			if st.pc.and(st.k.nodes[rid].t).and(x.not()).isFalse() {
				c = n.hi
			}
			if !st.gap(st.k.lins, kLin{st.k.nodes[c].lvl, 0, -1}, kLin{n.lvl, 0, 0}) {
				if st.guess {
					return "", "depends on an unknown condition"
				}
				return "a variable between a node and its child is not assigned", ""
			}
			return "", ""
		})
	}
	for _, fn := range []string{"satOne", "fullSatOne"} {
		fn := fn
		add("models", "Kernel."+fn, "", func(k *kRun, st *dst) []dval {
			return []dval{k.kp, one(k, st)}
		}, func(k *kRun, o dout) (string, string) {
			st := o.st
			id := k.in[0].(kNode).id
			if bad, open := isPath(k, o, o.rets[0], id); bad != "" || open != "" || fn == "satOne" {
				return bad, open
			}
			if st.k.nodes[id].mask&kZero == 0 && !st.gap(st.k.lins, kLin{st.k.nodes[id].lvl, 0, -1}, kLin{0, 0, -1}) {
				if st.guess {
					return "", "depends on an unknown condition"
				}
				return "a variable above the root is not assigned", ""
			}
			return "", ""
		})
	}
	for _, pol := range []int{0, 1} {
		for _, vk := range []string{"no variable", "variables"} {
			pol, vk := pol, vk
			add("models", "Kernel.satOneSetRec", fmt.Sprint("default ", pol), func(k *kRun, st *dst) []dval {
				r := one(k, st)
				k.d.kind(st, r.(kNode).id, kOne|kInner)
				v := k.d.freshNode(st).(kNode)
				if vk == "no variable" {
					k.d.kind(st, v.id, kOne|kZero)
				} else {
					k.d.kind(st, v.id, kInner)
					k.d.expand(st, v.id)
					n := st.k.nodes[v.id]
					k.d.kind(st, n.lo, kZero)
					k.d.kind(st, n.hi, kOne|kInner)
				}
				k.in = append(k.in, v)
				k.extra = dInt(pol)
				return []dval{k.kp, r, v, k.extra}
			}, func(k *kRun, o dout) (string, string) {
				st := o.st
				if bad, open := isPath(k, o, o.rets[0], k.in[0].(kNode).id); bad != "" || open != "" {
					return bad, open
				}
				if vk == "no variable" || st.guess {
					return "", ""
				}
				id, _ := nodeID(o.rets[0])
				vid := k.in[1].(kNode).id
				v, r := st.k.nodes[vid], st.k.n(k.in[0])
				men := st.k.nodes[id].men
				whole := strings.Contains(men, fmt.Sprintf("C%d;", vid))
				here := strings.Contains(men, fmt.Sprintf("C%d;", v.hi)) || st.k.nodes[v.hi].mask == kOne
				if !whole && !here {
					return "a variable asked for is not assigned", ""
				}
				if !whole && !strings.Contains(men, fmt.Sprintf("L%v;", kLin{v.lvl, 0, 0})) {
					lev := false
					for _, l := range st.k.lins {
						lev = lev || st.k.eqLin(l, kLin{v.lvl, 0, 0})
					}
					if !lev {
						return "a variable asked for is not assigned", ""
					}
				}
				if st.k.le(kLin{v.lvl, r.lvl, 0}, -1) {
					x, _ := k.d.levelVar(st, kLin{v.lvl, 0, 0})
					if pol == 0 {
						x = x.not()
					}
					if !st.pc.and(st.k.nodes[id].t).and(x.not()).isFalse() {
						return "a variable that does not matter is not given the default value", ""
					}
				}
				return "", ""
			})
		}
	}
	for _, fn := range []string{"BDD.Model", "BDD.FullModel"} {
		fn := fn
		add("models", fn, "", func(k *kRun, st *dst) []dval {
			return []dval{k.bdd(st, one(k, st))}
		}, func(k *kRun, o dout) (string, string) {
			for _, e := range o.st.k.evs {
				if e.what != "create" {
					continue
				}
				st, id := o.st, k.in[0].(kNode).id
				bad, open := isPath(k, o, kNode{e.id}, id)
				if bad != "" || open != "" || fn == "BDD.Model" || st.guess || st.k.nodes[id].mask&kZero != 0 {
					return bad, open
				}
				if _, ok := st.k.memo[fmt.Sprint("fullSatOneRec|", id)]; !ok && st.k.nodes[id].mask&kOne == 0 {
					if _, ok := st.k.memo[fmt.Sprint("satOneRec|", id)]; ok {
						return "a full model is asked for, but a path is given", ""
					}
					return "", "unknown way to a full model"
				}
				if !st.gap(st.k.lins, kLin{st.k.nodes[id].lvl, 0, -1}, kLin{0, 0, -1}) {
					return "a variable above the root is not assigned", ""
				}
				return "", ""
			}
			return "", "no model is made"
		})
	}
	for _, pol := range []int{0, 1} {
		pol := pol
		add("models", "BDD.ModelWithVariables", fmt.Sprint("default ", pol), func(k *kRun, st *dst) []dval {
			b := k.bdd(st, one(k, st))
			k.extra = k.d.list(st, []dval{k.d.fresh(st)})
			return []dval{b, dInt(pol), k.extra}
		}, func(k *kRun, o dout) (string, string) {
			st := o.st
			for _, e := range st.k.evs {
				if e.what == "polarity" && e.args[0] != dval(dInt(pol)) {
					return "the default value is not passed on", ""
				}
			}
			for _, e := range st.k.evs {
				if e.what == "create" {
					bad, open := isPath(k, o, kNode{e.id}, k.in[0].(kNode).id)
					cube := st.k.memo["cube "+keyOf(k.extra)]
					if bad == "" && open == "" && !st.guess && st.k.n(k.in[0]).mask&kZero == 0 && st.k.nodes[cube].mask == kInner && !strings.Contains(st.k.nodes[e.id].men, fmt.Sprintf("C%d;", cube)) {
						bad = "the variables asked for are not passed on"
					}
					return bad, open
				}
			}
			return "", "no model is made"
		})
	}
	for m := 0; m < 4; m++ {
		m := m
		add("models", "BDD.createModel", "", func(k *kRun, st *dst) []dval {
			k.in = nil
			var tuples []dval
			for i := 0; i < 2; i++ {
				n := k.d.freshNode(st).(kNode)
				k.d.kind(st, n.id, kInner)
				o := k.d.node(st, knode{t: st.k.nodes[n.id].t, mask: kOne | kInner})
				l := kLin{st.k.nodes[n.id].lvl, 0, 0}
				lo, hi := dval(dInt(0)), o
				if m>>i&1 == 1 {
					lo, hi = o, dInt(0)
				}
				tuples = append(tuples, k.d.list(st, []dval{n, kVarIx{l, 1, 0}, lo, hi}))
				k.in = append(k.in, n)
			}
			k.extra = k.d.list(st, tuples)
			return []dval{k.bdd(st, k.in[0]), k.in[0]}
		}, func(k *kRun, o dout) (string, string) {
			st := o.st
			for _, e := range st.k.evs {
				if e.what == "model" && len(e.args) == 0 {
					return "skip", "" // the constant BDD
				}
				if e.what != "model" {
					continue
				}
				want, got := ttTrue, ttTrue
				for i, v := range k.in {
					x, _ := k.d.levelVar(st, kLin{st.k.n(v).lvl, 0, 0})
					if m>>i&1 == 1 {
						x = x.not()
					}
					want = want.and(x)
				}
				for _, a := range e.args {
					t, ok := k.d.den(st, a)
					if !ok {
						return "", "unknown literal"
					}
					got = got.and(t)
				}
				if !st.pc.and(got.iff(want).not()).isFalse() && !st.guess {
					return "the model does not have the literals of the path", ""
				}
				return "", ""
			}
			return "", "no model is made"
		})
	}
	// all models
	for _, kind := range []string{"Sat", "Unsat"} {
		kind := kind
		add("models", "Kernel.all"+kind+"Rec", "", func(k *kRun, st *dst) []dval {
			r := one(k, st)
			arr := st.newArr(k.d)
			st.k.arrs[arr.cell]["mark"] = dInt(77)
			k.extra = arr
			pc, mc := k.d.id(), k.d.id()
			st.heap[pc] = arr
			st.heap[mc] = k.d.list(st, nil)
			k.flag = dPtr{mc, -1}
			return []dval{k.kp, r, dPtr{mc, -1}, dPtr{pc, -1}}
		}, func(k *kRun, o dout) (string, string) {
			st := o.st
			id := k.in[0].(kNode).id
			r := st.k.nodes[id]
			if st.guess {
				return "", "depends on an unknown condition"
			}
			es, ok := k.d.elems(st, k.d.load(st, k.flag))
			if !ok {
				return "", "unknown list"
			}
			final := kOne
			if kind == "Unsat" {
				final = kZero
			}
			if r.mask == kZero || r.mask == kOne {
				if r.mask != final {
					if len(es) != 0 {
						return "a path to the other constant is recorded", ""
					}
					return "", ""
				}
				if len(es) != 1 {
					return "a path is not recorded once", ""
				}
				a, ok := es[0].(kArr)
				if !ok {
					return "", "unknown path"
				}
				if a == k.extra {
					return "a path is recorded that is changed later", ""
				}
				if st.k.arrs[a.cell]["mark"] != dval(dInt(77)) {
					return "what is recorded is not the path", ""
				}
				return "", ""
			}
			n, ok := children(k, o)
			if !ok {
				return "", "unknown node"
			}
			if len(es) != 0 {
				return "a path that ends in an inner node is recorded", ""
			}
			x, _ := k.d.levelVar(st, kLin{n.lvl, 0, 0})
			got := ttFalse
			seen := map[int]bool{}
			for _, e := range st.k.evs {
				if e.what != "all"+kind+"Rec" {
					continue
				}
				if e.arr == nil {
					return "", "unknown path"
				}
				if seen[e.id] {
					return "a child is visited twice", ""
				}
				seen[e.id] = true
				lit := x
				switch e.arr[keyOf(kVarIx{kLin{n.lvl, 0, 0}, 1, 0})] {
				case dval(dInt(0)):
					lit = x.not()
				case dval(dInt(1)):
				default:
					return "the variable of a node is not recorded on the path", ""
				}
				c := st.k.nodes[e.id].t
				if kind == "Unsat" {
					c = c.not()
				}
				got = got.or(lit.and(c))
				var lins []kLin
				for i := 0; i < 16; i++ {
					l := kLin{st.k.nodes[e.id].lvl, 0, -1 - i}
					if i >= 8 {
						l = kLin{n.lvl, 0, i - 7}
					}
					if e.arr[keyOf(kVarIx{l, 1, 0})] == dval(dInt(2)) {
						lins = append(lins, l)
					}
				}
				if !st.gap(lins, kLin{st.k.nodes[e.id].lvl, 0, -1}, kLin{n.lvl, 0, 0}) {
					return "a variable between a node and its child is not marked as irrelevant", ""
				}
			}
			want := r.t
			if kind == "Unsat" {
				want = want.not()
			}
			if !st.pc.and(got.iff(want).not()).isFalse() {
				return "the paths recorded are not the paths of the BDD", ""
			}
			return "", ""
		})
		add("models", "Kernel.all"+kind, "", func(k *kRun, st *dst) []dval {
			return []dval{k.kp, one(k, st)}
		}, func(k *kRun, o dout) (string, string) {
			st := o.st
			if st.guess {
				return "", "depends on an unknown condition"
			}
			id := k.in[0].(kNode).id
			n := 0
			for _, e := range st.k.evs {
				if e.what != "all"+kind+"Rec" {
					continue
				}
				n++
				if e.id != id || e.arr == nil {
					return "another BDD is enumerated", ""
				}
				var lins []kLin
				for i := 0; i < 16; i++ {
					l := kLin{st.k.nodes[id].lvl, 0, -1 - i}
					if i >= 8 {
						l = kLin{0, 0, i - 8}
					}
					if e.arr[keyOf(kVarIx{l, 1, 0})] == dval(dInt(2)) {
						lins = append(lins, l)
					}
				}
				if !st.gap(lins, kLin{st.k.nodes[id].lvl, 0, -1}, kLin{0, 0, -1}) {
					return "a variable above the root is not marked as irrelevant", ""
				}
			}
			es, ok := k.d.elems(st, o.rets[0])
			if n != 1 || !ok {
				return "", "unknown enumeration"
			}
			if len(es) != 1 || es[0] != dval(kTerm{"the paths"}) {
				return "the paths found are not returned", ""
			}
			return "", ""
		})
	}
	// models of a path
	for pos := 0; pos <= 2; pos++ {
		for a := 0; a < 3; a++ {
			for b := 0; b < 3; b++ {
				if pos > 0 && a == 2 || pos > 1 && b == 2 {
					continue
				}
				// the second and the first variable, at the indices 2 and 0
				pos, mdl, at := pos, []int{b, 2, a}, []int{2, 0}
				add("models", "generateAllModels", "", func(k *kRun, st *dst) []dval {
					k.extra = k.paths(st, [][]int{mdl}).(dList)
					es, _ := k.d.elems(st, k.extra)
					mc := k.d.id()
					st.heap[mc] = k.d.list(st, nil)
					k.flag = dPtr{mc, -1}
					k.extra = es[0]
					rel := k.d.list(st, []dval{dInt(2), dInt(0)})
					k.in = []dval{rel}
					return []dval{k.kp, k.flag, es[0], rel, dInt(pos)}
				}, func(k *kRun, o dout) (string, string) {
					st := o.st
					if st.guess {
						return "", "depends on an unknown condition"
					}
					var want [][]int
					if pos < 2 {
						if mdl[at[pos]] != 2 {
							want = [][]int{mdl}
						} else {
							for v := 0; v < 2; v++ {
								w := append([]int{}, mdl...)
								w[at[pos]] = v
								want = append(want, w)
							}
						}
					}
					var got []string
					models := 0
					for _, e := range st.k.evs {
						switch e.what {
						case "generate":
							if e.args[4] != dval(dInt(pos+1)) || e.args[3] != k.in[0] || e.args[1] != k.flag {
								return "the rest of the variables is not enumerated", ""
							}
							got = append(got, fmt.Sprint(e.arr["0"], e.arr["1"], e.arr["2"]))
						case "model":
							models++
							t := ttTrue
							for _, x := range e.args {
								l, ok := k.d.den(st, x)
								if !ok {
									return "", "unknown literal"
								}
								t = t.and(l)
							}
							if pos == 2 && !st.pc.and(t.iff(k.pathsTT(st, [][]int{mdl})).not()).isFalse() {
								return "the model does not have the literals of the path", ""
							}
						case "model?":
							return "", "unknown model"
						}
					}
					if len(got) != len(want) {
						return "the values of a variable are not enumerated", ""
					}
					for _, w := range want {
						found := false
						for _, g := range got {
							found = found || g == fmt.Sprint(dInt(w[0]), dInt(w[1]), dInt(w[2]))
						}
						if !found {
							return "the values of a variable are not enumerated", ""
						}
					}
					es, ok := k.d.elems(st, k.d.load(st, k.flag))
					if pos == 2 && ok && (models != 1 || len(es) != 1) {
						return "a model is not recorded once", ""
					}
					if es, ok := k.d.elems(st, k.extra); ok && (es[0] != dval(dInt(mdl[0])) || es[1] != dval(dInt(mdl[1])) || es[2] != dval(dInt(mdl[2]))) {
						return "the path is not left as it was found", ""
					}
					return "", ""
				})
			}
		}
	}
	add("models", "BDD.ModelEnumeration", "", func(k *kRun, st *dst) []dval {
		b := k.bdd(st, one(k, st))
		k.extra = k.paths(st, [][]int{{0, 1}, {2, 1}})
		k.onPaths = func(st *dst) tt { return k.pathsTT(st, [][]int{{0, 1}, {2, 1}}) }
		var vs []dval
		for i := 0; i < 2; i++ {
			vs = append(vs, k.d.levelVariable(st, kLin{0, 0, i}))
		}
		k.d.kvars = vs
		return []dval{b, k.d.list(st, []dval{vs[0], k.d.fresh(st), vs[1]})}
	}, func(k *kRun, o dout) (string, string) {
		st := o.st
		if st.guess {
			return "", "depends on an unknown condition"
		}
		ps, _ := k.d.elems(st, k.extra)
		var got []dval
		for _, e := range st.k.evs {
			switch e.what {
			case "allSat", "allUnsat":
				if e.id != k.in[0].(kNode).id || e.what == "allUnsat" {
					return "the models of another function are enumerated", ""
				}
			case "generate":
				got = append(got, e.args[2])
				rel, ok := k.d.elems(st, e.args[3])
				if !ok {
					return "", "unknown variables"
				}
				seen := map[dval]bool{}
				for _, r := range rel {
					seen[r] = true
					if r != dval(kVarIx{kLin{0, 0, 0}, 1, 0}) && r != dval(kVarIx{kLin{0, 0, 1}, 1, 0}) {
						return "the models are over other variables", ""
					}
				}
				if len(seen) != 2 {
					return "the models are over other variables", ""
				}
				if e.args[4] != dval(dInt(0)) {
					return "the first variables are not enumerated", ""
				}
			}
		}
		if len(got) != len(ps) {
			return "a path is not enumerated", ""
		}
		for i := range ps {
			if got[i] != ps[i] {
				return "", "unknown order"
			}
		}
		return "", ""
	})
	// nodes
	add("models", "Kernel.allNodes", "", func(k *kRun, st *dst) []dval {
		k.kernelField(st, "nodesize", dInt(3))
		r := one(k, st)
		k.d.kind(st, r.(kNode).id, kInner)
		return []dval{k.kp, r}
	}, func(k *kRun, o dout) (string, string) {
		st := o.st
		es, ok := k.d.elems(st, o.rets[0])
		if !ok {
			return "", "unknown list"
		}
		for _, e := range es {
			f, ok := k.d.elems(st, e)
			if !ok || len(f) != 4 {
				return "", "unknown node"
			}
			n, ok := f[0].(dInt)
			if !ok || n < 2 {
				return "skip", ""
			}
			id := st.k.memo[fmt.Sprint("nodes", n)]
			nd := st.k.nodes[id]
			if nd.lo == 0 || f[1] != dval(kVarIx{kLin{nd.lvl, 0, 0}, 1, 0}) || f[2] != dval(kNode{nd.lo}) || f[3] != dval(kNode{nd.hi}) {
				return "the parts of a node are mixed up", ""
			}
		}
		if len(es) == 0 {
			return "skip", ""
		}
		return "", ""
	})
	return cs
}

func (k *kst) n(v dval) knode {
	id, _ := nodeID(v)
	return k.nodes[id]
}

// gap: the numbers from the first down to, but without, the last are in the list.
func (st *dst) gap(lins []kLin, from, to kLin) bool {
	has := func(x kLin) bool {
		for _, l := range lins {
			if st.k.eqLin(l, x) {
				return true
			}
		}
		return false
	}
	for i, up, down := 0, true, true; i < 8 && (up || down); i++ {
		if e, ok := subLin(from, to); ok && st.k.le(e, i) {
			return true
		}
		x, y := from, to
		x.c -= i
		y.c += i + 1
		down = down && has(x)
		up = up && has(y)
	}
	return false
}

// paths is a list of paths over the first variables.
func (k *kRun) paths(st *dst, ps [][]int) dval {
	var l []dval
	for _, p := range ps {
		var vs []dval
		for _, v := range p {
			vs = append(vs, dInt(v))
		}
		l = append(l, k.d.list(st, vs))
	}
	return k.d.list(st, l)
}

// pathsTT is the function that is true on the paths.
func (k *kRun) pathsTT(st *dst, ps [][]int) tt {
	t := ttFalse
	for _, p := range ps {
		m := ttTrue
		for i, v := range p {
			x, _ := k.d.levelVar(st, kLin{0, 0, i})
			switch v {
			case 0:
				m = m.and(x.not())
			case 1:
				m = m.and(x)
			}
		}
		t = t.or(m)
	}
	return t
}
