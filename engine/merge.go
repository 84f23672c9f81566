package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// region describes the side-effect free, acyclic part of the control flow between a
// conditional branch and its immediate postdominator. It is executed once with guards
// instead of forking.
type region struct {
	join int // -1: function exit
	blks []int
}

func computeRegions(fn *Fn, f *ssa.Function) {
	n := len(f.Blocks)
	if n > 600 {
		return
	}
	exit := n
	// postdominators as bitsets
	words := (n + 1 + 63) / 64
	full := make([]uint64, words)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pd := make([][]uint64, n+1)
	for i := 0; i <= n; i++ {
		pd[i] = append([]uint64(nil), full...)
	}
	for i := range pd[exit] {
		pd[exit][i] = 0
	}
	pd[exit][exit/64] |= 1 << uint(exit%64)
	succs := make([][]int, n)
	for i, b := range f.Blocks {
		for _, s := range b.Succs {
			succs[i] = append(succs[i], s.Index)
		}
		if len(b.Succs) == 0 {
			succs[i] = []int{exit}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			nw := append([]uint64(nil), full...)
			for _, s := range succs[i] {
				for k := range nw {
					nw[k] &= pd[s][k]
				}
			}
			nw[i/64] |= 1 << uint(i%64)
			for k := range nw {
				if nw[k] != pd[i][k] {
					ch = true
				}
			}
			pd[i] = nw
		}
	}
	in := func(s []uint64, i int) bool { return s[i/64]>>uint(i%64)&1 == 1 }
	count := func(s []uint64) int {
		c := 0
		for i := 0; i <= n; i++ {
			if in(s, i) {
				c++
			}
		}
		return c
	}
	for i := range fn.blocks {
		b := fn.blocks[i]
		if !b.isIf {
			continue
		}
		b.toExit = exitPure(fn, f, i)
		// immediate postdominator: strict postdominator with the largest set
		best, bc := -2, -1
		for j := 0; j <= n; j++ {
			if j != i && in(pd[i], j) {
				if c := count(pd[j]); c > bc {
					best, bc = j, c
				}
			}
		}
		if best == -2 {
			continue
		}
		join := best
		// collect region in topological order
		var order []int
		state := map[int]int{}
		ok := true
		var dfs func(x int)
		dfs = func(x int) {
			if !ok || x == join {
				return
			}
			switch state[x] {
			case 1:
				ok = false
				return
			case 2:
				return
			}
			if x == i || x == exit || len(state) > 24 {
				ok = false
				return
			}
			xb := fn.blocks[x]
			if !xb.pure || !(xb.isIf || xb.isJmp || (xb.isRet && join == exit)) {
				ok = false
				return
			}
			state[x] = 1
			if !xb.isRet {
				for _, s := range f.Blocks[x].Succs {
					dfs(s.Index)
				}
			}
			state[x] = 2
			order = append(order, x)
		}
		for _, s := range f.Blocks[i].Succs {
			dfs(s.Index)
		}
		if !ok {
			continue
		}
		for a, z := 0, len(order)-1; a < z; a, z = a+1, z-1 {
			order[a], order[z] = order[z], order[a]
		}
		r := &region{join: join, blks: order}
		if join == exit {
			r.join = -1
			if fn.hasDefer {
				continue
			}
			for k := 0; k < fn.res.Len(); k++ {
				if !mergeable(fn.res.At(k).Type()) {
					ok = false
				}
			}
		}
		// statically hopeless phis are left to the run-time identity check
		if ok {
			b.reg = r
		}
	}
}

func mergeable(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
		return true
	}
	return false
}

type guarded struct {
	pred int
	g    *Term
}

// tryMerge executes the region behind a symbolic branch with guards.
func (w *World) tryMerge(fr *Frame, blk int, cond *Term) (nb, np int, ret, ok bool) {
	b := fr.fn.blocks[blk]
	r := b.reg
	if r == nil || w.ex.NoMerge {
		return
	}
	if w.spec > 0 {
		return // nested: the outer region handles branches itself
	}
	w.spec++
	defer func() {
		w.spec--
		if e := recover(); e != nil {
			if _, is := e.(specAbort); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	m := w.m
	inc := map[int][]guarded{}
	type retv struct {
		g *Term
		v []Val
	}
	var rets []retv
	flow := func(x *Blk, e int, g *Term) {
		if g == m.F {
			return
		}
		s := x.succ[e]
		inc[s.to] = append(inc[s.to], guarded{s.pred, g})
	}
	flow(b, 0, cond)
	flow(b, 1, m.BNot(cond))
	for _, x := range r.blks {
		es := inc[x]
		if len(es) == 0 {
			continue
		}
		bx := fr.fn.blocks[x]
		w.steps += int64(bx.n)
		var g *Term = m.F
		for _, e := range es {
			g = m.BOr(g, e.g)
		}
		if len(bx.phis) > 0 {
			vals := make([]Val, len(bx.phis))
			for i := range bx.phis {
				v, good := w.mergePhi(fr, &bx.phis[i], es)
				if !good {
					return
				}
				vals[i] = v
			}
			for i := range bx.phis {
				fr.regs[bx.phis[i].reg] = vals[i]
			}
		}
		for _, c := range bx.code {
			c(fr)
		}
		switch {
		case bx.isIf:
			c := w.bterm(bx.ifc.get(fr))
			flow(bx, 0, m.BAnd(g, c))
			flow(bx, 1, m.BAnd(g, m.BNot(c)))
		case bx.isRet:
			vs := make([]Val, len(bx.ret))
			for i := range bx.ret {
				vs[i] = bx.ret[i].get(fr)
			}
			rets = append(rets, retv{g, vs})
		default:
			flow(bx, 0, g)
		}
	}
	if r.join == -1 {
		if len(rets) == 0 {
			return
		}
		n := fr.fn.res.Len()
		out := make([]Val, n)
		for i := 0; i < n; i++ {
			out[i] = rets[len(rets)-1].v[i]
			for k := len(rets) - 2; k >= 0; k-- {
				v, good := w.mergeVal(rets[k].g, rets[k].v[i], out[i], fr.fn.res.At(i).Type())
				if !good {
					return
				}
				out[i] = v
			}
		}
		switch n {
		case 0:
			fr.res = Val{}
		case 1:
			fr.res = out[0]
		default:
			fr.res = Val{P: &Tuple{out}}
		}
		return 0, 0, true, true
	}
	jb := fr.fn.blocks[r.join]
	es := inc[r.join]
	if len(es) == 0 {
		return
	}
	vals := make([]Val, len(jb.phis))
	for i := range jb.phis {
		v, good := w.mergePhi(fr, &jb.phis[i], es)
		if !good {
			return
		}
		vals[i] = v
	}
	for i := range jb.phis {
		fr.regs[jb.phis[i].reg] = vals[i]
	}
	return r.join, -1, false, true
}

func (w *World) mergePhi(fr *Frame, p *phi, es []guarded) (Val, bool) {
	v := p.in[es[len(es)-1].pred].get(fr)
	for k := len(es) - 2; k >= 0; k-- {
		x, ok := w.mergeVal(es[k].g, p.in[es[k].pred].get(fr), v, p.t)
		if !ok {
			return Val{}, false
		}
		v = x
	}
	return v, true
}

func (w *World) mergeVal(g *Term, a, b Val, t types.Type) (Val, bool) {
	if a == b {
		return a, true
	}
	if !mergeable(t) {
		return Val{}, false
	}
	s := scalarOf(t)
	return w.fromTerm(w.m.Ite(g, w.term(a, s.w), w.term(b, s.w)), s), true
}

// exitPure: everything reachable from block i is side-effect free and ends in returns of scalars.
func exitPure(fn *Fn, f *ssa.Function, i int) bool {
	if fn.hasDefer || fn.res.Len() == 0 {
		return false
	}
	for k := 0; k < fn.res.Len(); k++ {
		if !mergeable(fn.res.At(k).Type()) {
			return false
		}
	}
	seen := map[int]bool{i: true}
	st := []int{}
	for _, s := range f.Blocks[i].Succs {
		st = append(st, s.Index)
	}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		b := fn.blocks[x]
		if !b.pure || !(b.isIf || b.isJmp || b.isRet) {
			return false
		}
		for _, s := range f.Blocks[x].Succs {
			st = append(st, s.Index)
		}
	}
	return true
}

// tryExit runs the rest of a side-effect free function along all its paths (a search loop with early
// returns, say) and merges the results.
func (w *World) tryExit(fr *Frame, blk int, cond *Term) (ok bool) {
	fn := fr.fn
	if !fn.blocks[blk].toExit || w.ex.NoMerge || w.spec > 0 || w.noExit[fn] >= 3 {
		return false
	}
	save := append([]Val(nil), fr.regs...)
	w.spec++
	defer func() {
		w.spec--
		e := recover()
		if e != nil {
			if _, is := e.(specAbort); !is {
				panic(e)
			}
			ok = false
		}
		if !ok {
			if w.noExit == nil {
				w.noExit = map[*Fn]int{}
			}
			w.noExit[fn]++
			copy(fr.regs, save)
		}
	}()
	m := w.m
	type leaf struct {
		g *Term
		v []Val
	}
	type todo struct {
		blk, pred int
		g         *Term
		regs      []Val
	}
	var leaves []leaf
	var st []todo
	b := fn.blocks[blk]
	st = append(st, todo{b.succ[1].to, b.succ[1].pred, m.BNot(cond), append([]Val(nil), fr.regs...)})
	st = append(st, todo{b.succ[0].to, b.succ[0].pred, cond, append([]Val(nil), fr.regs...)})
	steps, forks := 0, 0
	var tmp [16]Val
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		copy(fr.regs, t.regs)
		bi, pred := t.blk, t.pred
		for {
			b := fn.blocks[bi]
			steps += b.n
			w.steps += int64(b.n)
			if steps > 200000 {
				return false
			}
			if len(b.phis) > 0 {
				v := tmp[:0]
				for i := range b.phis {
					v = append(v, b.phis[i].in[pred].get(fr))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].reg] = v[i]
				}
			}
			for _, c := range b.code {
				c(fr)
			}
			if b.isRet {
				vs := make([]Val, len(b.ret))
				for i := range b.ret {
					vs[i] = b.ret[i].get(fr)
				}
				leaves = append(leaves, leaf{t.g, vs})
				break
			}
			e := 0
			if b.isIf {
				c := b.ifc.get(fr)
				if c.P == nil {
					e = 1 - int(c.N)
				} else {
					ct := c.P.(*Term)
					if forks++; forks > 1500 || len(st) > 64 {
						return false
					}
					st = append(st, todo{b.succ[1].to, b.succ[1].pred, m.BNot(ct), append([]Val(nil), fr.regs...)})
					st[len(st)-1].g = m.BAnd(t.g, m.BNot(ct))
					t.g = m.BAnd(t.g, ct)
				}
			}
			pred = b.succ[e].pred
			bi = b.succ[e].to
		}
	}
	n := fn.res.Len()
	out := make([]Val, n)
	for i := 0; i < n; i++ {
		out[i] = leaves[len(leaves)-1].v[i]
		for k := len(leaves) - 2; k >= 0; k-- {
			v, good := w.mergeVal(leaves[k].g, leaves[k].v[i], out[i], fn.res.At(i).Type())
			if !good {
				return false
			}
			out[i] = v
		}
	}
	if n == 1 {
		fr.res = out[0]
	} else {
		fr.res = Val{P: &Tuple{out}}
	}
	return true
}
