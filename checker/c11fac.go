package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type facJob struct {
	name, conn string
	n          int
	lits       bool
	sort       string   // first argument
	sorts      []string // sorts of the operands
	res        denRes
}

// factoryRuns interprets every method of the factory that builds a formula.
func factoryRuns(p *Program, df *denFacts, onFlag func(d *den, st *dst, j *facJob, ops []dval, entry int64, val tt, known bool)) []*facJob {
	var jobs []*facJob
	add := func(name, conn string, lits bool, sort string, ns ...int) {
		for _, n := range ns {
			jobs = append(jobs, &facJob{name: name, conn: conn, n: n, lits: lits, sort: sort})
		}
	}
	add("Not", "SortNot", false, "", 1)
	add("Implication", "SortImpl", false, "", 2)
	add("Equivalence", "SortEquiv", false, "", 2)
	add("And", "SortAnd", false, "", 0, 1, 2, 3)
	add("Or", "SortOr", false, "", 0, 1, 2, 3)
	add("Minterm", "SortAnd", true, "", 0, 1, 2, 3)
	add("Clause", "SortOr", true, "", 0, 1, 2, 3)
	add("BinaryOperator", "SortImpl", false, "SortImpl", 2)
	add("BinaryOperator", "SortEquiv", false, "SortEquiv", 2)
	add("NaryOperator", "SortAnd", false, "SortAnd", 0, 1, 2, 3)
	add("NaryOperator", "SortOr", false, "SortOr", 0, 1, 2, 3)
	if onFlag != nil {
		// and some of fewer cases, which can be looked at to the end
		for _, conn := range []string{"SortAnd", "SortOr"} {
			for _, ss := range [][]string{{"SortOr", "SortLiteral"}, {"SortLiteral", "SortOr"}, {"SortOr", "SortOr"}, {"SortAnd", "SortLiteral"}, {"SortLiteral", "SortAnd"}, {"SortNot", "SortLiteral"}, {"SortPBC", "SortLiteral"}, {"SortOr", "SortImpl"}} {
				jobs = append(jobs, &facJob{name: conn[4:], conn: conn, n: 2, sorts: ss})
			}
		}
	}
	var wg sync.WaitGroup
	for _, j := range jobs {
		f := p.Func("formula", "CachingFactory."+j.name)
		if f == nil {
			continue
		}
		wg.Add(1)
		go func(j *facJob) {
			defer wg.Done()
			d := newDen(p, df)
			d.root = f
			d.maxSteps = 2000000
			d.pkgs[pkgOf(f)] = true
			st := newDst()
			var ops []dval
			var ts []tt
			var names []string
			for i := 0; i < j.n; i++ {
				t, _ := d.atom(st)
				v := dDen{t, d.id()}
				if j.sorts != nil {
					st.sorts[v.id] = d.bit(j.sorts[i])
				} else if j.lits {
					st.sorts[v.id] = 1 << d.sort["SortLiteral"]
				} else if j.n == 3 {
					m := allSorts &^ (1<<d.sort["SortAnd"] | 1<<d.sort["SortOr"])
					st.sorts[v.id] = m
				}
				ops = append(ops, v)
				ts = append(ts, t)
				names = append(names, fmt.Sprintf("operand%d", i+1))
			}
			d.hyp = func(d *den, g *ssa.Function, args []dval, st *dst) ([]dcall, bool) {
				if onFlag != nil && g.Name() == "SetPredicateCache" {
					for i, a := range args {
						if k, ok := a.(dInt); ok && i+2 < len(args) {
							t, ok := d.truth(st, args[i+2])
							onFlag(d, st, j, ops, int64(k), t, ok)
						}
					}
					return []dcall{{st, d.unk()}}, true
				}
				rs := g.Signature.Results()
				if rs.Len() != 2 || !isNamed(rs.At(0).Type(), "formula", "Formula") || !boolT(rs.At(1).Type()) || exported(g) {
					return nil, false
				}
				for i := 0; i < g.Signature.Params().Len(); i++ {
					if sl, ok := g.Signature.Params().At(i).Type().Underlying().(*types.Slice); ok && isNamed(sl.Elem(), "formula", "Formula") {
						return []dcall{{st.clone(), dStruct{[]dval{d.unk(), dInt(1)}}}, {st, dStruct{[]dval{dInt(0), dInt(0)}}}}, true
					}
				}
				return nil, false
			}
			// tables from operands to the formula that was built of them
			ofKey := func(st *dst, k dval, mt *types.Map) (tt, bool) {
				if !isNamed(mt.Elem(), "formula", "Formula") {
					return tt{}, false
				}
				ks := []dval{k}
				if s, ok := k.(dStruct); ok {
					ks = s.f
				} else if !isNamed(mt.Key(), "formula", "Formula") {
					return tt{}, false
				}
				var ts []tt
				for _, x := range ks {
					v, ok := x.(dDen)
					if !ok {
						return tt{}, false
					}
					ts = append(ts, v.t)
				}
				if len(ts) != j.n {
					return tt{}, false
				}
				return d.connective(1<<d.sort[j.conn], ts)
			}
			d.onLookup = func(st *dst, x *ssa.Lookup, k dval) ([]dcall, bool) {
				t, ok := ofKey(st, k, x.X.Type().Underlying().(*types.Map))
				if !ok || !x.CommaOk {
					return nil, false
				}
				return []dcall{{st.clone(), dStruct{[]dval{d.of(t), dInt(1)}}}, {st, dStruct{[]dval{dInt(0), dInt(0)}}}}, true
			}
			d.onUpdate = func(st *dst, k, v dval, x *ssa.MapUpdate) {
				if t, ok := ofKey(st, k, x.Map.Type().Underlying().(*types.Map)); ok {
					if w, ok := v.(dDen); ok {
						st.hyps = append(st.hyps, t.iff(w.t))
					}
				}
			}
			var args []dval
			k := 0
			for i, q := range f.Params {
				switch {
				case i == 0:
					args = append(args, d.unk())
				case isNamed(q.Type(), "formula", "FSort"):
					args = append(args, dInt(d.sort[j.sort]))
				case isFormulaT(q.Type()) && k < len(ops):
					args = append(args, ops[k])
					k++
				default:
					if _, ok := q.Type().Underlying().(*types.Slice); ok {
						args = append(args, d.list(st, ops))
					} else {
						args = append(args, d.unk())
					}
				}
			}
			want, _ := d.connective(1<<d.sort[j.conn], ts)
			for _, o := range d.run(f, args, nil, st) {
				if o.panic || d.failing(o) {
					continue
				}
				got, ok := d.den(o.st, o.rets[0])
				if !ok {
					j.res.open = "unknown result"
					continue
				}
				j.res.judged++
				for _, h := range o.st.hyps {
					if bad := o.st.pc.and(h.not()); !bad.isFalse() && j.res.bad == "" {
						j.res.bad = fmt.Sprintf("a formula is recorded for operands it is not the connective of, for example for %s", showTT(bad, names))
					}
				}
				diff := o.st.pc.and(got.iff(want).not())
				if !diff.isFalse() && j.res.bad == "" {
					j.res.bad = fmt.Sprintf("the result for %d operands has another meaning, for example for %s (%s)", j.n, showTT(diff, names), p.pos(o.ret.Pos()))
				}
			}
			if d.lost != "" {
				j.res.open = d.lost
			}
		}(j)
	}
	wg.Wait()
	return jobs
}

// factoryRule: the methods of the factory that build a formula give the
// connective they are named after.
func (c *Ctx) factoryRule(df *denFacts) {
	p := c.P
	c.Rule("factory", "a method of the factory that builds a formula from operands gives, whatever the operands are, a formula with the meaning of its connective", 15)
	jobs := factoryRuns(p, df, nil)
	open := []string{}
	for _, j := range jobs {
		f := p.Func("formula", "CachingFactory."+j.name)
		key := fmt.Sprintf("%s|%s|%d", j.name, j.conn[4:], j.n)
		switch {
		case f == nil:
			open = append(open, key+": no such method")
		case j.res.bad != "":
			c.Bad("factory", key, p.pos(f.Pos()), j.res.bad)
		case j.res.judged > 0:
			c.Ok("factory", key, p.pos(f.Pos()))
			if j.res.open != "" {
				open = append(open, key+": some cases: "+j.res.open)
			}
		default:
			open = append(open, key+": "+j.res.open)
		}
	}
	c.Extra["open factory"] = open
}
