package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"sync/atomic"
	"time"
)

var genCounter int64 = 1

func nextGen() int { return int(atomic.AddInt64(&genCounter, 1)) }

// randModel gives arbitrary values to every variable and UF application on demand.
func randModel(r *rand.Rand) *Model {
	mod := NewModel()
	style := r.Intn(4)
	mod.rnd = func(t *Term) *big.Int {
		w := t.w
		if w == 0 {
			w = 1
		}
		v := new(big.Int).Rand(r, new(big.Int).Lsh(bigOne, uint(w)))
		if style == 3 {
			switch r.Intn(4) {
			case 0:
				v.SetInt64(0)
			case 1:
				v.Set(bigMask(w))
			case 2:
				v.SetInt64(1)
			}
		}
		return v
	}
	return mod
}

// randomWitness looks for a model of pc && !c by evaluation only (it can only find violations).
// Half of the tries start from a model of the path condition and change some of its variables.
func (w *World) randomWitness(c *Term, tries int) *Model {
	r := rand.New(rand.NewSource(w.ex.Seed*7919 + int64(len(w.decs))))
	base := w.model
	if base == nil && w.ensureModel() {
		base = w.model
	}
	var names []string
	width := map[string]int{}
	if base != nil {
		seen := map[*Term]bool{}
		st := append([]*Term{c}, w.pc...)
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if x.op == OConst || seen[x] {
				continue
			}
			seen[x] = true
			if x.op == OVar {
				names = append(names, x.name)
				width[x.name] = x.w
			}
			st = append(st, x.args...)
		}
		sort.Strings(names)
	}
	for i := 0; i < tries*4; i++ {
		mod := randModel(r)
		if i%4 != 0 {
			if base == nil || len(names) == 0 {
				continue
			}
			one := -1
			if i%4 == 1 {
				one = r.Intn(len(names))
			}
			for k, n := range names {
				if k == one || one < 0 && r.Intn(2) == 0 {
					v := base.vars[n]
					if v == nil {
						v = new(big.Int)
					}
					if i%8 >= 4 { // flip one bit or all low bits only
						x := new(big.Int).Set(v)
						b := r.Intn(max(1, width[n]))
						mod.vars[n] = x.SetBit(x, b, 1-x.Bit(b))
					}
					continue
				}
				if v := base.vars[n]; v != nil {
					mod.vars[n] = new(big.Int).Set(v)
				} else {
					mod.vars[n] = new(big.Int)
				}
			}
		}
		w.m.gen++
		ok := true
		for _, p := range w.pc {
			if !w.m.EvalBool(p, mod) {
				ok = false
				break
			}
		}
		if ok && !w.m.EvalBool(c, mod) {
			w.m.gen++
			mod.rnd = nil
			return mod
		}
	}
	w.m.gen++
	return nil
}

// condWitness looks for a violation of c by arranging, one at a time, the conditions of the
// if-then-else terms below c; the result is verified by evaluation.
func (w *World) condWitness(c *Term) *Model {
	if w.model == nil && !w.ensureModel() {
		return nil
	}
	var conds []*Term
	have := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if x.op == OConst || seen[x] {
			return
		}
		seen[x] = true
		for _, a := range x.args {
			walk(a)
		}
		if x.op == OIte && !have[x.args[0]] {
			have[x.args[0]] = true
			conds = append(conds, x.args[0])
		}
	}
	walk(c)
	if len(conds) == 0 {
		return nil
	}
	size := map[*Term]int{}
	for _, x := range conds {
		size[x] = dagSize(x, 5000)
	}
	sort.SliceStable(conds, func(i, j int) bool { return size[conds[i]] < size[conds[j]] })
	if len(conds) > 48 {
		conds = conds[:48]
	}
	try := func(m *Model) bool {
		if m == nil {
			return false
		}
		w.m.gen++
		bad := !w.m.EvalBool(c, m)
		w.m.gen++
		return bad
	}
	slow := 0
	if os.Getenv("GMSYM_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "condWitness", len(conds), size[conds[0]], conds[0])
	}
	for _, x := range conds {
		if w.m.EvalBool(x, w.model) {
			x = w.m.BNot(x)
		}
		m := w.patch(x)
		if m == nil && slow < 4 && size[x] < 400 {
			slow++
			if r, mm := w.check(true, x); r == Sat {
				m = mm
			}
		}
		if try(m) {
			return m
		}
	}
	return nil
}

// dagSize counts the nodes under t, up to max.
func dagSize(t *Term, max int) int {
	seen := map[*Term]bool{}
	st := []*Term{t}
	for len(st) > 0 && len(seen) <= max {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x.op == OConst || seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.args...)
	}
	return len(seen)
}

func topo(root *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{root, 0}}
	seen[root] = true
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if !seen[a] {
				seen[a] = true
				st = append(st, fr{a, 0})
			}
			continue
		}
		out = append(out, f.t)
		st = st[:len(st)-1]
	}
	return out
}

// rebuild reconstructs t over new arguments through the simplifying constructors.
func (m *TM) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OConst, OVar:
		return t
	case OUF:
		return m.UF(t.w, t.name, a...)
	case OXor:
		return m.Xor(a...)
	case OAnd:
		return m.And(a...)
	case OOr:
		return m.Or(a...)
	case OAdd:
		return m.Add(a...)
	case OMulC:
		return m.mulC(t.coef(), a[0])
	case OMul:
		return m.Mul(a[0], a[1])
	case OUDiv, OURem, OSDiv, OSRem:
		return m.DivRem(t.op, a[0], a[1])
	case OShl, OLShr, OAShr:
		return m.Shift(t.op, a[0], a[1])
	case OConcat:
		return m.Concat(a...)
	case OExtract:
		return m.Extract(a[0], int(t.k), t.w)
	case OSExt:
		return m.SExt(a[0], t.w)
	case OIte:
		return m.Ite(a[0], a[1], a[2])
	case OTable:
		return m.Lookup(int(t.k), a[0])
	case OEq:
		return m.Eq(a[0], a[1])
	case OUlt:
		return m.Ult(a[0], a[1])
	case OUle:
		return m.Ule(a[0], a[1])
	case OSlt:
		return m.Slt(a[0], a[1])
	case OSle:
		return m.Sle(a[0], a[1])
	case OBAnd:
		return m.BAnd(a...)
	case OBOr:
		return m.BOr(a...)
	case OBNot:
		return m.BNot(a[0])
	}
	panic("rebuild")
}

// cut replaces everything more than depth operators below t by free variables.
func (m *TM) cut(t *Term, depth int, memo map[*Term]*Term, leaf map[*Term]*Term) *Term {
	if t.op == OConst || t.op == OVar {
		return t
	}
	if l, ok := leaf[t]; ok {
		return l
	}
	if depth == 0 {
		l := m.Fresh(t.w, "cut")
		leaf[t] = l
		return l
	}
	if r, ok := memo[t]; ok {
		return r
	}
	a := make([]*Term, len(t.args))
	for i, x := range t.args {
		d := depth - 1
		if x.op == OConcat || x.op == OExtract || x.op == OMulC {
			d = depth
		}
		a[i] = m.cut(x, d, memo, leaf)
	}
	r := m.rebuild(t, a)
	memo[t] = r
	return r
}

// proveEq decides a == b without the path condition, over a growing cone.
func (w *World) proveEq(a, b *Term) bool {
	m := w.m
	for _, depth := range []int{2, 5} {
		// leaves first, so that shared sub-terms at different depths agree: two passes
		leaf := map[*Term]*Term{}
		m.cut(a, depth, map[*Term]*Term{}, leaf)
		m.cut(b, depth, map[*Term]*Term{}, leaf)
		x := m.cut(a, depth, map[*Term]*Term{}, leaf)
		y := m.cut(b, depth, map[*Term]*Term{}, leaf)
		var q *Term
		if a.w == 0 {
			q = m.BNot(m.BOr(m.BAnd(x, y), m.BAnd(m.BNot(x), m.BNot(y))))
		} else {
			q = m.BNot(m.Eq(x, y))
		}
		if q == m.F {
			return true
		}
		if q == m.T {
			continue
		}
		if w.aux().CheckOnce(q) == Unsat {
			return true
		}
	}
	return false
}

func (w *World) aux() *Solver {
	if w.s2 == nil {
		w.s2 = NewSolver(w.m)
		w.s2.SetTimeout(3000)
	}
	w.s2.m = w.m
	return w.s2
}

// CheckOnce decides one formula in a fresh solver context; the print generation of the terms is restored.
func (s *Solver) CheckOnce(q *Term) Result {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.hardReset()
	ts := topo(q)
	old := make([]int, len(ts))
	for i, t := range ts {
		old[i] = t.pgen
	}
	r, _ := s.Check(false, q)
	for i, t := range ts {
		t.pgen = old[i]
	}
	return r
}

// sweepProve tries to prove c by merging internal nodes that simulate alike and are proved equal.
func (w *World) sweepProve(c *Term) bool {
	m := w.m
	nodes := topo(c)
	if len(nodes) > 400000 {
		return false
	}
	const K = 16
	sig := make(map[*Term][2]uint64, len(nodes))
	r := rand.New(rand.NewSource(12345))
	newSig := func(rounds int) {
		for k := 0; k < rounds; k++ {
			mod := randModel(r)
			m.gen++
			m.eval(c, mod)
			for _, t := range nodes {
				if t.op == OConst {
					continue
				}
				if t.egen != m.gen {
					m.eval(t, mod)
				}
				v := t.ev
				if t.w > 64 {
					v = t.eb.Uint64() ^ new(big.Int).Rsh(t.eb, 64).Uint64()*31
				}
				s := sig[t]
				s[0] = (s[0] ^ v) * 0x9E3779B97F4A7C15
				s[0] ^= s[0] >> 29
				s[1] = (s[1]+v)*0xC2B2AE3D27D4EB4F + 1
				s[1] ^= s[1] >> 31
				sig[t] = s
			}
		}
		m.gen++
	}
	newSig(K)
	type key struct {
		w int
		s [2]uint64
	}
	// constants over the simulation are also candidates
	rep := map[*Term]*Term{}
	cand := map[key][]*Term{}
	fails := 0
	deadline := time.Now().Add(60 * time.Second)
	for _, t := range nodes {
		if t.op == OConst {
			rep[t] = t
			continue
		}
		if time.Now().After(deadline) || (!w.deadline.IsZero() && time.Now().After(w.deadline)) {
			return false
		}
		changed := false
		var n *Term
		a := make([]*Term, len(t.args))
		for i, x := range t.args {
			a[i] = rep[x]
			if a[i] != x {
				changed = true
			}
		}
		if changed {
			n = m.rebuild(t, a)
		} else {
			n = t
		}
		rep[t] = n
		if n.op == OConst || t.op == OVar || n.op == OVar {
			continue
		}
		k := key{t.w, sig[t]}
		done := false
		for _, o := range cand[k] {
			if o == n {
				done = true
				break
			}
		}
		if done {
			continue
		}
		for _, o := range cand[k] {
			if fails > 400 {
				break
			}
			if w.proveEq(n, o) {
				w.ex.count(func(s *Stats) { s.SweptNodes++ })
				rep[t] = o
				done = true
				break
			}
			fails++
		}
		if !done {
			cand[k] = append(cand[k], n)
		}
	}
	n := rep[c]
	if n == m.T {
		return true
	}
	return w.aux().CheckOnce(m.BNot(n)) == Unsat
}

const (
	xorSmall = 8
	xorLarge = 256
	bigDag   = 1000
)

// rebuildAll reconstructs c bottom-up under the current normal-form settings.
func (m *TM) rebuildAll(c *Term) *Term {
	rep := map[*Term]*Term{}
	for _, t := range topo(c) {
		a := make([]*Term, len(t.args))
		for i, x := range t.args {
			a[i] = rep[x]
		}
		rep[t] = m.rebuild(t, a)
		if m.canonBits {
			rep[t] = m.bitCanon(rep[t])
		}
	}
	return rep[c]
}
