package main

import (
	"math/big"
	"sort"
	"strings"
)

// Multivariate polynomials with big integer coefficients; a monomial is a sorted list of atom ids.

type Mono struct {
	c *big.Int
	e []int32
}

type Poly struct{ t map[string]*Mono }

func monoKey(e []int32) string {
	b := make([]byte, 0, len(e)*3)
	for _, x := range e {
		b = append(b, byte(x>>16), byte(x>>8), byte(x))
	}
	return string(b)
}

func polyC(c *big.Int) *Poly {
	p := &Poly{map[string]*Mono{}}
	if c.Sign() != 0 {
		p.t[""] = &Mono{c, nil}
	}
	return p
}

func polyAtom(id int) *Poly {
	e := []int32{int32(id)}
	return &Poly{map[string]*Mono{monoKey(e): {big.NewInt(1), e}}}
}

func (p *Poly) isConst() (*big.Int, bool) {
	if len(p.t) == 0 {
		return new(big.Int), true
	}
	if len(p.t) == 1 {
		if m, ok := p.t[""]; ok {
			return m.c, true
		}
	}
	return nil, false
}

func (p *Poly) add(m *Mono, M *big.Int) {
	k := monoKey(m.e)
	c := m.c
	if o, ok := p.t[k]; ok {
		c = new(big.Int).Add(o.c, m.c)
	}
	if M != nil {
		c = new(big.Int).Mod(c, M)
	}
	if c.Sign() == 0 {
		delete(p.t, k)
		return
	}
	p.t[k] = &Mono{c, m.e}
}

func polyAdd(a, b *Poly, M *big.Int) *Poly {
	r := &Poly{make(map[string]*Mono, len(a.t)+len(b.t))}
	for _, m := range a.t {
		r.add(m, M)
	}
	for _, m := range b.t {
		r.add(m, M)
	}
	return r
}

func polyScale(a *Poly, c *big.Int, M *big.Int) *Poly {
	r := &Poly{make(map[string]*Mono, len(a.t))}
	for _, m := range a.t {
		r.add(&Mono{new(big.Int).Mul(m.c, c), m.e}, M)
	}
	return r
}

func polySub(a, b *Poly, M *big.Int) *Poly { return polyAdd(a, polyScale(b, big.NewInt(-1), M), M) }

func mulE(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	e := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i] <= b[j] {
			e = append(e, a[i])
			i++
		} else {
			e = append(e, b[j])
			j++
		}
	}
	e = append(e, a[i:]...)
	return append(e, b[j:]...)
}

// divE gives a/b if b divides a.
func divE(a, b []int32) ([]int32, bool) {
	var e []int32
	j := 0
	for _, x := range a {
		if j < len(b) && b[j] == x {
			j++
			continue
		}
		e = append(e, x)
	}
	return e, j == len(b)
}

func polyMul(a, b *Poly, M *big.Int) *Poly {
	if len(a.t)*len(b.t) > 20000 {
		panic(unsupported("polynomial too large"))
	}
	r := &Poly{make(map[string]*Mono, len(a.t)*len(b.t))}
	for _, x := range a.t {
		for _, y := range b.t {
			r.add(&Mono{new(big.Int).Mul(x.c, y.c), mulE(x.e, y.e)}, M)
		}
	}
	return r
}

func (p *Poly) mod(M *big.Int) *Poly {
	r := &Poly{make(map[string]*Mono, len(p.t))}
	for _, m := range p.t {
		r.add(m, M)
	}
	return r
}

func (p *Poly) sorted() []*Mono {
	ks := make([]string, 0, len(p.t))
	for k := range p.t {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return lessE(p.t[ks[j]].e, p.t[ks[i]].e) })
	r := make([]*Mono, len(ks))
	for i, k := range ks {
		r[i] = p.t[k]
	}
	return r
}

// lessE is the lexicographic monomial order in which atom 0 is the largest variable.
func lessE(a, b []int32) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] > b[i]
		}
	}
	return len(a) < len(b)
}

func (p *Poly) lead() *Mono {
	var l *Mono
	for _, m := range p.t {
		if l == nil || lessE(l.e, m.e) {
			l = m
		}
	}
	return l
}

func (p *Poly) key() string {
	var sb strings.Builder
	for _, m := range p.sorted() {
		sb.WriteString(m.c.Text(16))
		sb.WriteByte('*')
		sb.WriteString(monoKey(m.e))
		sb.WriteByte('+')
	}
	return sb.String()
}

func (p *Poly) equal(q *Poly) bool {
	if len(p.t) != len(q.t) {
		return false
	}
	for k, m := range p.t {
		n, ok := q.t[k]
		if !ok || n.c.Cmp(m.c) != 0 {
			return false
		}
	}
	return true
}

// monic scales p (mod the prime M) so that its leading coefficient is 1.
func (p *Poly) monic(M *big.Int) (*Poly, *big.Int) {
	l := p.lead()
	if l == nil {
		return p, big.NewInt(1)
	}
	inv := new(big.Int).ModInverse(l.c, M)
	if inv == nil {
		panic(unsupported("leading coefficient not invertible"))
	}
	return polyScale(p, inv, M), l.c
}

// polyDiv divides exactly over the prime field.
func polyDiv(a, b *Poly, M *big.Int) (*Poly, bool) {
	lb := b.lead()
	inv := new(big.Int).ModInverse(lb.c, M)
	if inv == nil {
		return nil, false
	}
	q := &Poly{map[string]*Mono{}}
	for n := 0; len(a.t) > 0; n++ {
		if n > 2000 {
			return nil, false
		}
		la := a.lead()
		e, ok := divE(la.e, lb.e)
		if !ok {
			return nil, false
		}
		c := new(big.Int).Mul(la.c, inv)
		c.Mod(c, M)
		f := &Poly{map[string]*Mono{monoKey(e): {c, e}}}
		q = polyAdd(q, f, M)
		a = polySub(a, polyMul(f, b, M), M)
	}
	return q, true
}

// Rat is num / product of den (each den monic and known to be non-zero), modulo a prime.
type Rat struct {
	num *Poly
	den []*Poly
}

func (r *Rat) simplify(M *big.Int) *Rat {
	if len(r.num.t) == 0 {
		return &Rat{num: r.num}
	}
	num := r.num
	var den []*Poly
	for _, d := range r.den {
		if q, ok := polyDiv(num, d, M); ok {
			num = q
		} else {
			den = append(den, d)
		}
	}
	return &Rat{num, den}
}

func ratMul(a, b *Rat, M *big.Int) *Rat {
	r := &Rat{polyMul(a.num, b.num, M), append(append([]*Poly(nil), a.den...), b.den...)}
	return r.simplify(M)
}

func prodPoly(ps []*Poly, M *big.Int) *Poly {
	r := polyC(big.NewInt(1))
	for _, p := range ps {
		r = polyMul(r, p, M)
	}
	return r
}

// denDiff gives the factors of a that are not in b (as multisets).
func denDiff(a, b []*Poly) []*Poly {
	used := make([]bool, len(b))
	var r []*Poly
outer:
	for _, x := range a {
		for i, y := range b {
			if !used[i] && x.equal(y) {
				used[i] = true
				continue outer
			}
		}
		r = append(r, x)
	}
	return r
}

func ratAdd(a, b *Rat, M *big.Int) *Rat {
	da := denDiff(a.den, b.den) // needed by b
	db := denDiff(b.den, a.den) // needed by a
	num := polyAdd(polyMul(a.num, prodPoly(db, M), M), polyMul(b.num, prodPoly(da, M), M), M)
	r := &Rat{num, append(append([]*Poly(nil), a.den...), db...)}
	return r.simplify(M)
}

func ratNeg(a *Rat, M *big.Int) *Rat {
	return &Rat{polyScale(a.num, big.NewInt(-1), M), a.den}
}

func ratEqual(a, b *Rat, M *big.Int) bool {
	return len(ratAdd(a, ratNeg(b, M), M).num.t) == 0
}

func (r *Rat) isConst() (*big.Int, bool) {
	if len(r.den) > 0 {
		return nil, false
	}
	return r.num.isConst()
}

// leading is the greatest monomial in graded lexicographic order.
func (p *Poly) leading() *Mono {
	var l *Mono
	for _, m := range p.t {
		if l == nil || gradedLess(l.e, m.e) {
			l = m
		}
	}
	return l
}

func gradedLess(a, b []int32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] > b[i]
		}
	}
	return false
}

// divide is the exact quotient p/d over the field with M elements, if there is one.
func (p *Poly) divide(d *Poly, M *big.Int) (*Poly, bool) {
	ld := d.leading()
	inv := new(big.Int).ModInverse(ld.c, M)
	if inv == nil {
		return nil, false
	}
	q := &Poly{map[string]*Mono{}}
	r := &Poly{map[string]*Mono{}}
	for _, m := range p.t {
		r.add(m, M)
	}
	for steps := 0; len(r.t) > 0; steps++ {
		lr := r.leading()
		e, ok := divE(lr.e, ld.e)
		if !ok || steps > 64 {
			return nil, false
		}
		c := new(big.Int).Mul(lr.c, inv)
		c.Mod(c, M)
		q.add(&Mono{c, e}, M)
		nc := new(big.Int).Neg(c)
		for _, m := range d.t {
			r.add(&Mono{new(big.Int).Mul(nc, m.c), mulE(m.e, e)}, M)
		}
	}
	return q, true
}
