package main

import "sort"

// Bitwise functions of few words have many spellings ((x&y)|(z&(x^y)),
// (x&y)|(x&z)|(y&z), ...).  bitCanon rewrites a bitwise node over at most
// bitLeaves other words to the algebraic normal form of its truth table, an
// exclusive or of conjunctions, which is unique.
const (
	bitLeaves = 8
	bitTerms  = 40
)

func isBitwise(t *Term) bool { return t.w > 0 && (t.op == OAnd || t.op == OOr || t.op == OXor) }

func (m *TM) bitCanon(t *Term) *Term {
	if !isBitwise(t) {
		return t
	}
	// the leaves, and whether there is anything to do
	ones := m.ones(t.w)
	zero := m.C(t.w, 0)
	var leaves []*Term
	seen := map[*Term]bool{}
	conj := false
	var visit func(x *Term) bool
	visit = func(x *Term) bool {
		if x == ones || x == zero || seen[x] {
			return true
		}
		seen[x] = true
		if len(seen) > 64 {
			return false
		}
		if !isBitwise(x) {
			if len(leaves) == bitLeaves {
				return false
			}
			leaves = append(leaves, x)
			return true
		}
		if x.op != OXor {
			conj = true
		}
		for _, a := range x.args {
			if !visit(a) {
				return false
			}
		}
		return true
	}
	if !visit(t) || !conj || len(leaves) == 0 {
		return t
	}
	sort.Slice(leaves, func(i, j int) bool { return leaves[i].id < leaves[j].id })
	n := len(leaves)
	// truth tables: entry r for the assignment r
	memo := map[*Term][]bool{ones: make([]bool, 1<<n), zero: make([]bool, 1<<n)}
	for r := range memo[ones] {
		memo[ones][r] = true
	}
	for i, l := range leaves {
		v := make([]bool, 1<<n)
		for r := range v {
			v[r] = r>>i&1 == 1
		}
		memo[l] = v
	}
	var tt func(x *Term) []bool
	tt = func(x *Term) []bool {
		if v, ok := memo[x]; ok {
			return v
		}
		v := append([]bool(nil), tt(x.args[0])...)
		for _, a := range x.args[1:] {
			for r, b := range tt(a) {
				switch x.op {
				case OAnd:
					v[r] = v[r] && b
				case OOr:
					v[r] = v[r] || b
				case OXor:
					v[r] = v[r] != b
				}
			}
		}
		memo[x] = v
		return v
	}
	f := append([]bool(nil), tt(t)...)
	// Moebius transform: the coefficients of the normal form
	for i := 0; i < n; i++ {
		for r := range f {
			if r>>i&1 == 1 {
				f[r] = f[r] != f[r^1<<i]
			}
		}
	}
	terms := 0
	for _, c := range f {
		if c {
			terms++
		}
	}
	if terms > bitTerms {
		return t
	}
	build := func(leaves []*Term) *Term {
		sum := []*Term{zero}
		for r := 0; r < 1<<n; r++ {
			if !f[r] {
				continue
			}
			p := []*Term{ones}
			for i, l := range leaves {
				if r>>i&1 == 1 {
					p = append(p, l)
				}
			}
			sum = append(sum, m.And(p...))
		}
		return m.Xor(sum...)
	}
	if m.lem != nil { // the step as a lemma over free leaves
		if m.bitVars == nil {
			m.bitVars = map[int]*Term{}
		}
		sub := map[*Term]*Term{ones: ones, zero: zero}
		free := make([]*Term, n)
		for i, l := range leaves {
			k := t.w*bitLeaves + i
			if m.bitVars[k] == nil {
				m.bitVars[k] = m.Fresh(t.w, "bit")
			}
			free[i] = m.bitVars[k]
			sub[l] = free[i]
		}
		var inst func(x *Term) *Term
		inst = func(x *Term) *Term {
			if y := sub[x]; y != nil {
				return y
			}
			a := make([]*Term, len(x.args))
			for i := range a {
				a[i] = inst(x.args[i])
			}
			sub[x] = m.rebuild(x, a)
			return sub[x]
		}
		u, v := inst(t), build(free)
		if isBitwise(u) && u != v {
			m.recDeep = true
			m.rec(u.op, u.w, 0, nil, append([]*Term(nil), u.args...), &v)
			m.recDeep = false
		}
	}
	return build(leaves)
}
