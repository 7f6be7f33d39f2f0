package main

import "golang.org/x/tools/go/ssa"

// liveIn computes, per block, the registers that are still used from the
// block's entry on (phi operands count as used at the end of the predecessor).
func liveIn(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, i := range b.Instrs {
			if ph, ok := i.(*ssa.Phi); ok {
				d[ph] = true
				continue
			}
			var ops [12]*ssa.Value
			for _, o := range i.Operands(ops[:0]) {
				if o != nil && *o != nil && !d[*o] {
					u[*o] = true
				}
			}
			if df, ok := i.(*ssa.Defer); ok {
				_ = df
			}
			if v, ok := i.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b], in[b] = u, d, map[ssa.Value]bool{}
	}
	// operands of deferred calls stay live to the exits
	var deferred []ssa.Value
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if df, ok := i.(*ssa.Defer); ok {
				var ops [12]*ssa.Value
				for _, o := range df.Operands(ops[:0]) {
					if o != nil && *o != nil {
						deferred = append(deferred, *o)
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					out[v] = true
				}
				for k, q := range s.Preds {
					if q != b {
						continue
					}
					for _, x := range s.Instrs {
						ph, ok := x.(*ssa.Phi)
						if !ok {
							break
						}
						out[ph.Edges[k]] = true
					}
				}
			}
			n := in[b]
			add := func(v ssa.Value) {
				if !n[v] {
					n[v] = true
					changed = true
				}
			}
			for v := range use[b] {
				add(v)
			}
			for v := range out {
				if !def[b][v] {
					add(v)
				}
			}
			for _, v := range deferred {
				add(v)
			}
		}
	}
	// phis are defined at entry but carry values in from the edges
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			if ph, ok := x.(*ssa.Phi); ok {
				in[b][ph] = true
			}
		}
	}
	return in
}
