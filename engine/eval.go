package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Model assigns values to variables and to the UF applications seen by the solver.
type Model struct {
	vars map[string]*big.Int
	uf   map[string]map[string]*big.Int // name -> key of argument values -> value
	rnd  func(t *Term) *big.Int         // values for unknown variables (simulation); nil: 0
}

func NewModel() *Model {
	return &Model{vars: map[string]*big.Int{}, uf: map[string]map[string]*big.Int{}}
}

// Eval evaluates t under model mod. Generation m.gen must be bumped whenever the model changes.
func (m *TM) Eval(t *Term, mod *Model) *big.Int {
	if t.op == OConst {
		return t.bigVal()
	}
	m.eval(t, mod)
	if t.w > 64 {
		return t.eb
	}
	return new(big.Int).SetUint64(t.ev)
}

func (m *TM) EvalBool(t *Term, mod *Model) bool {
	if t.op == OConst {
		return t.k != 0
	}
	m.eval(t, mod)
	return t.ev != 0
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *TM) ev64(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	return t.ev
}
func (m *TM) evBig(t *Term) *big.Int {
	if t.op == OConst {
		return t.bigVal()
	}
	if t.w > 64 {
		return t.eb
	}
	return new(big.Int).SetUint64(t.ev)
}

func (m *TM) eval(t *Term, mod *Model) {
	if t.op == OConst || t.egen == m.gen {
		return
	}
	// iterative for deep terms
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.egen == m.gen || f.t.op == OConst {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != OConst && a.egen != m.gen {
				st = append(st, fr{a, 0})
			}
			continue
		}
		m.eval1(f.t, mod)
		f.t.egen = m.gen
		st = st[:len(st)-1]
	}
}

func (m *TM) set(t *Term, v *big.Int) {
	if t.w > 64 {
		t.eb = new(big.Int).And(v, bigMask(t.w))
	} else {
		if v.Sign() < 0 || v.BitLen() > 64 {
			v = new(big.Int).And(v, bigMask(64))
		}
		t.ev = v.Uint64()
		if t.w > 0 {
			t.ev &= mask(t.w)
		}
	}
}

func (m *TM) eval1(t *Term, mod *Model) {
	a := t.args
	switch t.op {
	case OVar:
		if v, ok := mod.vars[t.name]; ok {
			m.set(t, v)
		} else if mod.rnd != nil {
			v := mod.rnd(t)
			mod.vars[t.name] = v
			m.set(t, v)
		} else {
			m.set(t, new(big.Int))
		}
		return
	case OUF:
		key := ""
		for _, x := range a {
			key += m.evBig(x).Text(62) + ","
		}
		tab := mod.uf[t.name]
		if tab == nil {
			tab = map[string]*big.Int{}
			mod.uf[t.name] = tab
		}
		if v, ok := tab[key]; ok {
			m.set(t, v)
			return
		}
		v := new(big.Int)
		if strings.HasPrefix(t.name, "SM3_") { // the real value, so that models are realistic
			v.SetBytes(sm3Sum(m.evBig(a[0]).FillBytes(make([]byte, a[0].w/8))))
		} else if mod.rnd != nil {
			v = mod.rnd(t)
		}
		tab[key] = v
		m.set(t, v)
		return
	}
	wide := t.w > 64
	for _, x := range a {
		if x.w > 64 {
			wide = true
		}
	}
	if wide {
		m.evalWide(t)
		return
	}
	w := t.w
	switch t.op {
	case OXor:
		var r uint64
		for _, x := range a {
			r ^= m.ev64(x)
		}
		t.ev = r
	case OAnd:
		r := ^uint64(0)
		for _, x := range a {
			r &= m.ev64(x)
		}
		t.ev = r & mask(w)
	case OOr:
		var r uint64
		for _, x := range a {
			r |= m.ev64(x)
		}
		t.ev = r
	case OAdd:
		var r uint64
		for _, x := range a {
			r += m.ev64(x)
		}
		t.ev = r & mask(w)
	case OMulC:
		t.ev = t.k * m.ev64(a[0]) & mask(w)
	case OMul:
		t.ev = m.ev64(a[0]) * m.ev64(a[1]) & mask(w)
	case OUDiv:
		if y := m.ev64(a[1]); y == 0 {
			t.ev = mask(w)
		} else {
			t.ev = m.ev64(a[0]) / y
		}
	case OURem:
		if y := m.ev64(a[1]); y == 0 {
			t.ev = m.ev64(a[0])
		} else {
			t.ev = m.ev64(a[0]) % y
		}
	case OSDiv, OSRem:
		x, y := signed(m.ev64(a[0]), w), signed(m.ev64(a[1]), w)
		switch {
		case y == 0 && t.op == OSRem:
			t.ev = uint64(x) & mask(w)
		case y == 0:
			if x < 0 {
				t.ev = 1
			} else {
				t.ev = mask(w)
			}
		case y == -1 && t.op == OSDiv:
			t.ev = uint64(-x) & mask(w)
		case y == -1:
			t.ev = 0
		case t.op == OSDiv:
			t.ev = uint64(x/y) & mask(w)
		default:
			t.ev = uint64(x%y) & mask(w)
		}
	case OShl:
		if n := m.ev64(a[1]); n >= uint64(w) {
			t.ev = 0
		} else {
			t.ev = m.ev64(a[0]) << n & mask(w)
		}
	case OLShr:
		if n := m.ev64(a[1]); n >= uint64(w) {
			t.ev = 0
		} else {
			t.ev = m.ev64(a[0]) >> n
		}
	case OAShr:
		n := m.ev64(a[1])
		if n >= uint64(w) {
			n = uint64(w) - 1
		}
		t.ev = uint64(signed(m.ev64(a[0]), w)>>n) & mask(w)
	case OConcat:
		var r uint64
		for _, x := range a {
			r = r<<uint(x.w) | m.ev64(x)
		}
		t.ev = r
	case OExtract:
		t.ev = m.ev64(a[0]) >> t.k & mask(w)
	case OSExt:
		t.ev = uint64(signed(m.ev64(a[0]), a[0].w)) & mask(w)
	case OIte:
		if m.ev64(a[0]) != 0 {
			t.ev = m.ev64(a[1])
		} else {
			t.ev = m.ev64(a[2])
		}
	case OTable:
		i := m.ev64(a[0])
		tb := m.tables[t.k]
		if i < uint64(len(tb)) {
			t.ev = tb[i] & mask(w)
		} else {
			t.ev = 0
		}
	case OEq:
		t.ev = b2u(m.ev64(a[0]) == m.ev64(a[1]))
	case OUlt:
		t.ev = b2u(m.ev64(a[0]) < m.ev64(a[1]))
	case OUle:
		t.ev = b2u(m.ev64(a[0]) <= m.ev64(a[1]))
	case OSlt:
		t.ev = b2u(signed(m.ev64(a[0]), a[0].w) < signed(m.ev64(a[1]), a[1].w))
	case OSle:
		t.ev = b2u(signed(m.ev64(a[0]), a[0].w) <= signed(m.ev64(a[1]), a[1].w))
	case OBAnd:
		r := uint64(1)
		for _, x := range a {
			r &= m.ev64(x)
		}
		t.ev = r
	case OBOr:
		r := uint64(0)
		for _, x := range a {
			r |= m.ev64(x)
		}
		t.ev = r
	case OBNot:
		t.ev = 1 ^ m.ev64(a[0])
	default:
		panic(fmt.Sprintf("eval op %d", t.op))
	}
}

func sgn(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(bigOne, uint(w)))
	}
	return v
}

func (m *TM) evalWide(t *Term) {
	a := t.args
	v := make([]*big.Int, len(a))
	for i, x := range a {
		v[i] = m.evBig(x)
	}
	w := t.w
	r := new(big.Int)
	switch t.op {
	case OXor:
		for _, x := range v {
			r.Xor(r, x)
		}
	case OAnd:
		r.Set(v[0])
		for _, x := range v[1:] {
			r.And(r, x)
		}
	case OOr:
		for _, x := range v {
			r.Or(r, x)
		}
	case OAdd:
		for _, x := range v {
			r.Add(r, x)
		}
	case OMulC:
		r.Mul(t.coef(), v[0])
	case OMul:
		r.Mul(v[0], v[1])
	case OUDiv:
		if v[1].Sign() == 0 {
			r.Set(bigMask(w))
		} else {
			r.Quo(v[0], v[1])
		}
	case OURem:
		if v[1].Sign() == 0 {
			r.Set(v[0])
		} else {
			r.Rem(v[0], v[1])
		}
	case OShl:
		if v[1].IsInt64() && v[1].Int64() < int64(w) {
			r.Lsh(v[0], uint(v[1].Int64()))
		}
	case OLShr:
		if v[1].IsInt64() && v[1].Int64() < int64(w) {
			r.Rsh(v[0], uint(v[1].Int64()))
		}
	case OConcat:
		for i, x := range v {
			r.Lsh(r, uint(a[i].w))
			r.Or(r, x)
		}
	case OExtract:
		r.Rsh(v[0], uint(t.k))
		r.And(r, bigMask(w))
	case OSExt:
		r.Set(sgn(v[0], a[0].w))
	case OIte:
		if v[0].Sign() != 0 {
			r = v[1]
		} else {
			r = v[2]
		}
	case OEq:
		r.SetUint64(b2u(v[0].Cmp(v[1]) == 0))
	case OUlt:
		r.SetUint64(b2u(v[0].Cmp(v[1]) < 0))
	case OUle:
		r.SetUint64(b2u(v[0].Cmp(v[1]) <= 0))
	case OSlt:
		r.SetUint64(b2u(sgn(v[0], a[0].w).Cmp(sgn(v[1], a[1].w)) < 0))
	case OSle:
		r.SetUint64(b2u(sgn(v[0], a[0].w).Cmp(sgn(v[1], a[1].w)) <= 0))
	default:
		panic(fmt.Sprintf("evalWide op %d", t.op))
	}
	m.set(t, r)
}

func (m *Model) clone() *Model {
	n := NewModel()
	for k, v := range m.vars {
		n.vars[k] = v
	}
	for k, t := range m.uf {
		c := make(map[string]*big.Int, len(t))
		for a, v := range t {
			c[a] = v
		}
		n.uf[k] = c
	}
	return n
}
