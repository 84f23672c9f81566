package main

import (
	"fmt"
	"math/big"
	"os"

	"golang.org/x/tools/go/ssa"
)

// A model of math/big.Int: an immutable *BigV sits in the abs field of the interpreted struct (nil = 0).
// A symbolic integer is a polynomial over the integers in atoms; an atom is an unsigned bit-vector term,
// possibly known to be the residue of a rational function modulo a prime.

type BigV struct {
	c      *big.Int
	p      *Poly
	lo, hi *big.Int
}

type BAtom struct {
	t   *Term
	lo  *big.Int
	hi  *big.Int
	M   *big.Int // residue modulo M of rat
	rat *Rat
	why string
}

type bigSt struct {
	zpoly   []*Poly // keys of zero (debugging)
	factors []polyFactor
	atoms   []*BAtom
	byTerm  map[*Term]int
	alias   map[*Term]*BigV
	zero    map[string]*Term
	linked  map[string]bool
	canon   map[string]*Rat
	primes  map[string]bool
	pts     *ecSt
	klen    map[string]int // decided byte lengths
	rems    map[string]int // opaque residues
	facts   map[*Term]fact // what a term says about one atom
}

func (w *World) bigState() *bigSt {
	if s, ok := w.ext["big"].(*bigSt); ok {
		return s
	}
	s := &bigSt{byTerm: map[*Term]int{}, alias: map[*Term]*BigV{}, zero: map[string]*Term{}, linked: map[string]bool{}, canon: map[string]*Rat{}}
	w.ext["big"] = s
	return s
}

var bigZero = big.NewInt(0)

// fact: the term is true exactly when lo <= atom <= hi (yes), and false exactly when it is in the other range.
type fact struct {
	id      int
	yes, no [2]*big.Int
}

func (w *World) addFact(t *Term, f fact) {
	s := w.bigState()
	if s.facts == nil {
		s.facts = map[*Term]fact{}
	}
	s.facts[t] = f
}

// learn narrows the range of an atom after t was assumed.
func (w *World) learn(t *Term) {
	s, ok := w.ext["big"].(*bigSt)
	if !ok || len(s.facts) == 0 {
		return
	}
	if t.op == OBAnd {
		if _, ok := s.facts[t]; !ok {
			for _, a := range t.args {
				w.learn(a)
			}
			return
		}
	}
	f, ok := s.facts[t]
	r := f.yes
	if !ok && t.op == OBNot {
		f, ok = s.facts[t.args[0]]
		r = f.no
	}
	if !ok {
		return
	}
	a := s.atoms[f.id]
	if r[0] != nil && r[0].Cmp(a.lo) > 0 && r[0].Cmp(a.hi) <= 0 {
		a.lo = r[0]
	}
	if r[1] != nil && r[1].Cmp(a.hi) < 0 && r[1].Cmp(a.lo) >= 0 {
		a.hi = r[1]
	}
}

func bigC(c *big.Int) *BigV { return &BigV{c: c, lo: c, hi: c} }

func pow2(n int) *big.Int { return new(big.Int).Lsh(bigOne, uint(n)) }

// ---- reading and writing the interpreted struct ----

func (w *World) bigAgg(v Val) *Agg {
	switch p := v.P.(type) {
	case *Val:
		if a, ok := p.P.(*Agg); ok && len(a.e) == 2 {
			return a
		}
	case nil:
		w.goPanicStr("invalid memory address or nil pointer dereference")
	}
	panic(unsupported(fmt.Sprintf("big.Int through %T", v.P)))
}

func (w *World) bigGet(v Val) *BigV { return bigOfAgg(w.bigAgg(v)) }

func bigOfAgg(a *Agg) *BigV {
	switch p := a.e[1].P.(type) {
	case nil:
		return bigC(bigZero)
	case *BigV:
		return p
	case *Slice: // a nat assembled by interpreted code
		if len(p.e) == 0 {
			return bigC(bigZero)
		}
		v := new(big.Int)
		for i := len(p.e) - 1; i >= 0; i-- {
			if p.e[i].P != nil {
				panic(unsupported("symbolic nat"))
			}
			v.Lsh(v, 64)
			v.Or(v, new(big.Int).SetUint64(p.e[i].N))
		}
		if a.e[0].N != 0 {
			v.Neg(v)
		}
		return bigC(v)
	}
	panic(unsupported("big.Int contents"))
}

func (w *World) bigPut(dst Val, v *BigV) Val {
	a := w.bigAgg(dst)
	if w.spec > 0 {
		panic(specAbort{})
	}
	old := bigOfAgg(a)
	if old == v || old.c != nil && v.c != nil && old.c.Cmp(v.c) == 0 {
		if old.c != nil && a.e[1].P != nil {
			return dst
		}
	}
	w.store(&a.e[0], Val{})
	if v.c != nil && v.c.Sign() == 0 {
		w.store(&a.e[1], Val{})
	} else {
		w.store(&a.e[1], Val{P: v})
	}
	return dst
}

func (w *World) bigNew(v *BigV) Val {
	p := new(Val)
	*p = Val{P: &Agg{make([]Val, 2)}}
	if !(v.c != nil && v.c.Sign() == 0) {
		p.P.(*Agg).e[1] = Val{P: v}
	}
	return Val{P: p}
}

// ---- atoms ----

func (w *World) atomOf(t *Term) *BigV {
	s := w.bigState()
	if c, ok := t.constBig(); ok {
		return bigC(c)
	}
	if v, ok := s.alias[t]; ok {
		return v
	}
	id, ok := s.byTerm[t]
	if !ok {
		id = len(s.atoms)
		s.atoms = append(s.atoms, &BAtom{t: t, lo: bigZero, hi: new(big.Int).Sub(pow2(t.w), bigOne)})
		s.byTerm[t] = id
	}
	return w.polyBig(polyAtom(id))
}

// ---- values of new atoms in the current model ----

// suggest extends the current model with the value a new variable really has under it.
func (w *World) suggest(name string, v *big.Int) {
	if w.model != nil && v != nil {
		w.model.vars[name] = v
	}
}

func (w *World) polyValue(p *Poly, M *big.Int) *big.Int {
	s := w.bigState()
	r := new(big.Int)
	for _, m := range p.t {
		t := new(big.Int).Set(m.c)
		for _, id := range m.e {
			t.Mul(t, w.m.Eval(s.atoms[id].t, w.model))
			if M != nil {
				t.Mod(t, M)
			}
		}
		r.Add(r, t)
	}
	if M != nil {
		r.Mod(r, M)
	}
	return r
}

func (w *World) ratValue(r *Rat, M *big.Int) *big.Int {
	if w.model == nil {
		return nil
	}
	v := w.polyValue(r.num, M)
	for _, d := range r.den {
		x := w.polyValue(d, M)
		if x.ModInverse(x, M) == nil {
			return nil
		}
		v.Mul(v, x)
		v.Mod(v, M)
	}
	return v
}

func (w *World) newAtom(bits int, hi *big.Int, why string, val *big.Int) int {
	s := w.bigState()
	id := len(s.atoms)
	t := w.m.Var(bits, fmt.Sprintf("%s#%d", why, id))
	w.suggest(t.name, val)
	s.atoms = append(s.atoms, &BAtom{t: t, lo: bigZero, hi: hi, why: why})
	s.byTerm[t] = id
	if hi.BitLen() <= bits && new(big.Int).Add(hi, bigOne).Cmp(pow2(bits)) < 0 {
		w.assume(w.m.Ule(t, w.m.BigC(bits, hi)))
	}
	w.stubbed = true
	return id
}

func (w *World) polyBig(p *Poly) *BigV {
	if c, ok := p.isConst(); ok {
		return bigC(c)
	}
	lo, hi := new(big.Int), new(big.Int)
	s := w.bigState()
	for _, m := range p.t {
		a, b := new(big.Int).Set(m.c), new(big.Int).Set(m.c)
		for _, id := range m.e {
			a.Mul(a, s.atoms[id].lo)
			b.Mul(b, s.atoms[id].hi)
		}
		if m.c.Sign() < 0 {
			a, b = b, a
		}
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	if lo.Cmp(hi) == 0 {
		return bigC(lo)
	}
	return &BigV{p: p, lo: lo, hi: hi}
}

func (v *BigV) poly() *Poly {
	if v.p == nil {
		return polyC(v.c)
	}
	return v.p
}

// soleAtom: the value is exactly one atom.
func (w *World) soleAtom(v *BigV) (int, bool) {
	if v.p == nil || len(v.p.t) != 1 {
		return 0, false
	}
	for _, m := range v.p.t {
		if len(m.e) == 1 && m.c.Cmp(bigOne) == 0 {
			return int(m.e[0]), true
		}
	}
	return 0, false
}

// bv is the two's complement term of v at the given width (which must be enough).
func (w *World) bv(v *BigV, width int) *Term {
	if v.c != nil {
		return w.m.BigC(width, new(big.Int).And(v.c, bigMask(width)))
	}
	if id, ok := w.soleAtom(v); ok {
		t := w.bigState().atoms[id].t
		if t.w <= width {
			return w.m.ZExt(t, width)
		}
		return w.m.Extract(t, 0, width)
	}
	return w.polyTerm(v.p, width)
}

func (w *World) polyTerm(p *Poly, width int) *Term {
	s := w.bigState()
	r := w.m.C(width, 0)
	for _, m := range p.sorted() {
		t := w.m.BigC(width, new(big.Int).And(m.c, bigMask(width)))
		for _, id := range m.e {
			a := s.atoms[id].t
			if a.w <= width {
				a = w.m.ZExt(a, width)
			} else {
				a = w.m.Extract(a, 0, width)
			}
			t = w.m.Mul(t, a)
		}
		r = w.m.Add(r, t)
	}
	return r
}

func (v *BigV) width() int { // signed width
	return max(v.lo.BitLen(), v.hi.BitLen()) + 1
}

// signedCmp gives eq and lt terms of v compared with 0.
func (w *World) bigZ(v *BigV) (eq, lt *Term) {
	if v.c != nil {
		return w.m.Bool(v.c.Sign() == 0), w.m.Bool(v.c.Sign() < 0)
	}
	wd := v.width()
	lt = w.m.F
	if v.hi.Sign() < 0 {
		return w.m.F, w.m.T
	}
	if v.lo.Sign() < 0 {
		if d := w.twoTerm(v); d != nil {
			return w.bigIsZero(v), d
		}
		t := w.bv(v, wd)
		lt = w.m.Eq(w.m.Extract(t, wd-1, 1), w.m.C(1, 1))
	}
	if v.lo.Sign() > 0 {
		return w.m.F, lt
	}
	return w.bigIsZero(v), lt
}

// twoTerm: v < 0 as an unsigned comparison when v is a difference of two atoms or of an atom and a constant.
func (w *World) twoTerm(v *BigV) *Term {
	if len(v.p.t) != 2 {
		return nil
	}
	s := w.bigState()
	var pos, neg *Term
	wd := 1
	for _, m := range v.p.t {
		wd = max(wd, m.c.BitLen())
		for _, id := range m.e {
			wd = max(wd, s.atoms[id].t.w)
		}
	}
	for _, m := range v.p.t {
		var t *Term
		c := new(big.Int).Abs(m.c)
		switch {
		case len(m.e) == 0:
			t = w.m.BigC(wd, c)
		case len(m.e) == 1 && c.Cmp(bigOne) == 0:
			t = w.m.ZExt(s.atoms[m.e[0]].t, wd)
		default:
			return nil
		}
		if m.c.Sign() > 0 {
			if pos != nil {
				return nil
			}
			pos = t
		} else {
			if neg != nil {
				return nil
			}
			neg = t
		}
	}
	if pos == nil || neg == nil {
		return nil
	}
	t := w.m.Ult(pos, neg)
	for _, m := range v.p.t {
		if len(m.e) != 1 {
			continue
		}
		c := new(big.Int)
		if k, ok := v.p.t[""]; ok {
			c = k.c
		} else {
			break
		}
		id := int(m.e[0])
		if m.c.Sign() > 0 { // atom + c < 0: atom <= -c-1
			w.addFact(t, fact{id, [2]*big.Int{nil, new(big.Int).Sub(new(big.Int).Neg(c), bigOne)}, [2]*big.Int{new(big.Int).Neg(c), nil}})
		} else { // c - atom < 0: atom >= c+1
			w.addFact(t, fact{id, [2]*big.Int{new(big.Int).Add(c, bigOne), nil}, [2]*big.Int{nil, c}})
		}
	}
	return t
}

// bigIsZero decides v == 0, using residue knowledge.
func (w *World) bigIsZero(v *BigV) *Term {
	if v.c != nil {
		return w.m.Bool(v.c.Sign() == 0)
	}
	if v.lo.Sign() > 0 || v.hi.Sign() < 0 {
		return w.m.F
	}
	s := w.bigState()
	wd := v.width()
	B := w.m.Eq(w.bv(v, wd), w.m.C(wd, 0))
	if id, ok := w.soleAtom(v); ok {
		w.addFact(B, fact{id, [2]*big.Int{nil, nil}, [2]*big.Int{bigOne, nil}})
	}
	// residues: if |v| < M then v = 0 exactly when v = 0 mod M
	var M *big.Int
	for _, m := range v.p.t {
		for _, id := range m.e {
			if a := s.atoms[id]; a.M != nil && a.rat != nil {
				if M == nil || a.M.Cmp(M) < 0 {
					M = a.M
				}
			}
		}
	}
	if M == nil {
		return B
	}
	if v.hi.Cmp(M) >= 0 || new(big.Int).Neg(v.lo).Cmp(M) >= 0 {
		// v = 0 mod M exactly when v is one of the few multiples of M in its range
		a, b := new(big.Int).Quo(v.lo, M), new(big.Int).Quo(v.hi, M)
		if new(big.Int).Sub(b, a).Cmp(big.NewInt(6)) <= 0 {
			z := w.ratIsZero(w.canon(v.p, M), M)
			or := w.m.F
			t := w.bv(v, wd)
			for k := new(big.Int).Set(a); k.Cmp(b) <= 0; k.Add(k, bigOne) {
				c := new(big.Int).Mul(k, M)
				or = w.m.BOr(or, w.m.Eq(t, w.m.BigC(wd, c.And(c, bigMask(wd)))))
			}
			k := fmt.Sprintf("%d=%d", z.id, or.id)
			if z != or && !s.linked[k] {
				s.linked[k] = true
				w.assume(w.m.Eq(z, or))
			}
		}
		return B
	}
	z := w.ratIsZero(w.canon(v.p, M), M)
	if z != B {
		k := fmt.Sprintf("%d=%d", z.id, B.id)
		if !s.linked[k] {
			s.linked[k] = true
			w.assume(w.m.Eq(z, B))
		}
	}
	return z
}

// ratIsZero: the residue is zero modulo the prime M.
func (w *World) ratIsZero(r *Rat, M *big.Int) *Term {
	if c, ok := r.num.isConst(); ok {
		return w.m.Bool(c.Sign() == 0)
	}
	s := w.bigState()
	num, _ := r.num.monic(M)
	k := M.Text(62) + "|" + num.key()
	if z, ok := s.zero[k]; ok {
		return z
	}
	z := w.ratIsZero1(num, M)
	s.zero[k] = z
	s.zpoly = append(s.zpoly, num)
	return z
}

func (w *World) ratIsZero1(num *Poly, M *big.Int) *Term {
	s := w.bigState()
	// common monomial factor
	var common []int32
	first := true
	for _, m := range num.t {
		if first {
			common = append([]int32(nil), m.e...)
			first = false
			continue
		}
		var c []int32
		j := 0
		for _, x := range common {
			for j < len(m.e) && m.e[j] < x {
				j++
			}
			if j < len(m.e) && m.e[j] == x {
				c = append(c, x)
				j++
			}
		}
		common = c
	}
	if len(common) > 0 && !(len(num.t) == 1 && len(common) == 1) {
		z := w.m.F
		rest := &Poly{map[string]*Mono{}}
		for _, m := range num.t {
			e, _ := divE(m.e, common)
			rest.add(&Mono{m.c, e}, M)
		}
		last := int32(-1)
		for _, id := range common {
			if id != last {
				z = w.m.BOr(z, w.ratIsZero(&Rat{num: polyAtom(int(id))}, M))
			}
			last = id
		}
		return w.m.BOr(z, w.ratIsZero(&Rat{num: rest}, M))
	}
	// linear with small centred coefficients: exact
	if t := w.linearZero(num, M); t != nil {
		return t
	}
	// a product with a known factor (M is prime)
	if len(num.t) > 1 {
		for _, f := range s.factors {
			if f.M.Cmp(M) != 0 || len(f.p.t) > len(num.t) || len(f.p.leading().e) >= len(num.leading().e) {
				continue
			}
			if q, ok := num.divide(f.p, M); ok {
				return w.m.BOr(w.ratIsZero(&Rat{num: q}, M), w.ratIsZero(&Rat{num: f.p}, M))
			}
		}
	}
	z := w.m.Var(1, fmt.Sprintf("Z#%d", len(s.zero)))
	if w.model != nil {
		v := new(big.Int)
		if w.polyValue(num, M).Sign() == 0 {
			v.SetInt64(1)
		}
		w.suggest(z.name, v)
	}
	return w.m.Eq(z, w.m.C(1, 1))
}

// factor remembers a number that later products may contain.
func (w *World) factor(p *Poly, M *big.Int) {
	if len(p.t) < 2 || !w.isPrime(M) {
		return
	}
	s := w.bigState()
	p, _ = p.monic(M)
	for _, f := range s.factors {
		if f.M.Cmp(M) == 0 && f.p.equal(p) {
			return
		}
	}
	s.factors = append(s.factors, polyFactor{p, M})
}

type polyFactor struct {
	p *Poly
	M *big.Int
}

func (w *World) linearZero(num *Poly, M *big.Int) *Term {
	half := new(big.Int).Rsh(M, 1)
	best := (*Poly)(nil)
	var scales []*big.Int
	for _, m := range num.t {
		if len(m.e) > 1 {
			return nil
		}
		if len(m.e) == 1 {
			scales = append(scales, new(big.Int).ModInverse(m.c, M))
		}
	}
	for _, sc := range scales {
		q := &Poly{map[string]*Mono{}}
		ok := true
		for _, m := range num.t {
			c := new(big.Int).Mul(m.c, sc)
			c.Mod(c, M)
			if c.Cmp(half) > 0 {
				c.Sub(c, M)
			}
			if len(m.e) == 1 && c.BitLen() > 12 {
				ok = false
			}
			q.add(&Mono{c, m.e}, nil)
		}
		if ok {
			best = q
			break
		}
	}
	if best == nil {
		return nil
	}
	v := w.polyBig(best)
	a := new(big.Int).Div(v.lo, M)
	b := new(big.Int).Div(v.hi, M)
	if new(big.Int).Sub(b, a).Cmp(big.NewInt(8)) > 0 {
		return nil
	}
	z := w.m.F
	for k := new(big.Int).Set(a); k.Cmp(b) <= 0; k.Add(k, bigOne) {
		c := new(big.Int).Mul(k, M)
		if c.Cmp(v.lo) < 0 || c.Cmp(v.hi) > 0 {
			continue
		}
		d := w.polyBig(polySub(best, polyC(c), nil))
		wd := d.width()
		z = w.m.BOr(z, w.m.Eq(w.bv(d, wd), w.m.C(wd, 0)))
	}
	return z
}

// canon is the residue of an integer polynomial modulo a prime M as a rational function of free atoms.
func (w *World) canon(p *Poly, M *big.Int) *Rat {
	s := w.bigState()
	ms := M.Text(62)
	r := &Rat{num: polyC(bigZero)}
	plain := &Poly{map[string]*Mono{}}
	for _, m := range p.sorted() {
		sub := false
		for _, id := range m.e {
			a := s.atoms[id]
			if a.M != nil && a.rat != nil && a.M.Cmp(M) == 0 {
				sub = true
			}
		}
		if !sub {
			plain.add(m, M)
			continue
		}
		t := &Rat{num: polyC(new(big.Int).Mod(m.c, M))}
		for _, id := range m.e {
			a := s.atoms[id]
			f := &Rat{num: polyAtom(int(id))}
			if a.M != nil && a.rat != nil && a.M.Cmp(M) == 0 {
				f = a.rat
			}
			t = w.ratStep("mul", t, f, M, ms)
		}
		r = w.ratStep("add", r, t, M, ms)
	}
	if len(plain.t) > 0 {
		r = w.ratStep("add", r, &Rat{num: plain}, M, ms)
	}
	return r
}

func (w *World) ratStep(op string, a, b *Rat, M *big.Int, ms string) *Rat {
	var r *Rat
	if op == "mul" {
		r = ratMul(a, b, M)
	} else {
		r = ratAdd(a, b, M)
	}
	w.ringLemma(op, a, b, r, M)
	return r
}

// residue gives the BigV of r in [0,M).
func (w *World) residue(r *Rat, M *big.Int) *BigV {
	if c, ok := r.isConst(); ok {
		return bigC(new(big.Int).Mod(c, M))
	}
	s := w.bigState()
	for id, a := range s.atoms {
		if a.rat != nil && a.M.Cmp(M) == 0 && ratEqual(a.rat, r, M) {
			return w.polyBig(polyAtom(id))
		}
	}
	// a free atom that is already reduced
	if len(r.den) == 0 && len(r.num.t) == 1 {
		for _, m := range r.num.t {
			if len(m.e) == 1 && m.c.Cmp(bigOne) == 0 && s.atoms[m.e[0]].hi.Cmp(M) < 0 {
				return w.polyBig(polyAtom(int(m.e[0])))
			}
		}
	}
	w.factor(r.num, M)
	id := w.newAtom(M.BitLen(), new(big.Int).Sub(M, bigOne), "res", w.ratValue(r, M))
	s.atoms[id].M = M
	s.atoms[id].rat = r
	// link with the other residues of the same modulus that are its multiples or sums is left to bigIsZero
	if len(r.den) == 0 || true {
		// the residue itself is zero exactly when the numerator is
		z := w.ratIsZero(r, M)
		w.assume(w.m.Eq(z, w.m.Eq(s.atoms[id].t, w.m.C(M.BitLen(), 0))))
	}
	if len(r.den) == 0 && len(r.num.t) <= 3 {
		half := new(big.Int).Rsh(M, 1)
		q := &Poly{map[string]*Mono{}}
		for _, m := range r.num.t {
			c := new(big.Int).Set(m.c)
			if c.Cmp(half) > 0 {
				c.Sub(c, M)
			}
			q.add(&Mono{c, m.e}, nil)
		}
		w.linkMod(w.polyBig(q), id, M)
	}
	return w.polyBig(polyAtom(id))
}

func (w *World) isPrime(M *big.Int) bool {
	s := w.bigState()
	if s.primes == nil {
		s.primes = map[string]bool{}
	}
	k := M.Text(62)
	if v, ok := s.primes[k]; ok {
		return v
	}
	v := M.ProbablyPrime(20)
	s.primes[k] = v
	return v
}

// bigMod is the Euclidean remainder of x by the positive constant M.
func (w *World) bigMod(x *BigV, M *big.Int) *BigV {
	if x.c != nil {
		return bigC(new(big.Int).Mod(x.c, M))
	}
	if x.lo.Sign() >= 0 && x.hi.Cmp(M) < 0 {
		return x
	}
	if M.BitLen() <= 16 || M.BitLen() > 0 && new(big.Int).And(M, new(big.Int).Sub(M, bigOne)).Sign() == 0 {
		// small or power of two: bit precise
		wd := x.width()
		if b := M.BitLen() - 1; b > 0 && new(big.Int).And(M, new(big.Int).Sub(M, bigOne)).Sign() == 0 {
			return w.atomOf(w.m.Extract(w.bv(x, max(wd, b)), 0, b)) // two's complement: right for negative values too
		}
		if x.lo.Sign() >= 0 {
			if M.BitLen() > wd {
				return x
			}
			if b := M.BitLen() - 1; new(big.Int).And(M, new(big.Int).Sub(M, bigOne)).Sign() == 0 {
				if b == 0 {
					return bigC(bigZero)
				}
				return w.atomOf(w.m.Extract(w.bv(x, wd), 0, b))
			}
			return w.atomOf(w.m.DivRem(OURem, w.bv(x, wd), w.m.BigC(wd, M)))
		}
	}
	if !w.isPrime(M) {
		// an opaque residue: its value is x minus a multiple of M
		key := x.p.mod(M).key() + "%" + M.Text(62)
		if id, ok := w.bigState().rems[key]; ok {
			return w.polyBig(polyAtom(id))
		}
		var val *big.Int
		if w.model != nil {
			val = w.polyValue(x.p, M)
		}
		id := w.newAtom(M.BitLen(), new(big.Int).Sub(M, bigOne), "rem", val)
		s := w.bigState()
		if s.rems == nil {
			s.rems = map[string]int{}
		}
		s.rems[key] = id
		// values already in range stay what they are
		wd := max(x.width(), M.BitLen()+1)
		t := w.bv(x, wd)
		in := w.m.Ult(t, w.m.BigC(wd, M))
		w.assume(w.m.BOr(w.m.BNot(in), w.m.Eq(w.m.ZExt(s.atoms[id].t, wd), t)))
		return w.polyBig(polyAtom(id))
	}
	v := w.residue(w.canon(x.p, M), M)
	if id, ok := w.soleAtom(v); ok && len(x.p.t) <= 3 {
		// link linear values bit-precisely: x - v is a small multiple of M
		w.linkMod(x, id, M)
	}
	return v
}

// linkMod adds x = v + k*M for the few possible k when x is linear.
func (w *World) linkMod(x *BigV, id int, M *big.Int) {
	for _, m := range x.p.t {
		if len(m.e) > 1 {
			return
		}
	}
	s := w.bigState()
	a, b := new(big.Int).Div(x.lo, M), new(big.Int).Div(x.hi, M)
	if new(big.Int).Sub(b, a).Cmp(big.NewInt(4)) > 0 {
		return
	}
	wd := max(x.width(), M.BitLen()+2) + 1
	t := w.bv(x, wd)
	v := w.m.ZExt(s.atoms[id].t, wd)
	z := w.m.F
	for k := new(big.Int).Set(a); k.Cmp(b) <= 0; k.Add(k, bigOne) {
		c := new(big.Int).Mul(k, M)
		z = w.m.BOr(z, w.m.Eq(t, w.m.Add(v, w.m.BigC(wd, new(big.Int).And(c, bigMask(wd))))))
	}
	w.assume(z)
}

func (w *World) bigAdd(x, y *BigV) *BigV {
	if x.c != nil && y.c != nil {
		return bigC(new(big.Int).Add(x.c, y.c))
	}
	return w.polyBig(polyAdd(x.poly(), y.poly(), nil))
}
func (w *World) bigNeg(x *BigV) *BigV {
	if x.c != nil {
		return bigC(new(big.Int).Neg(x.c))
	}
	return w.polyBig(polyScale(x.p, big.NewInt(-1), nil))
}
func (w *World) bigSub(x, y *BigV) *BigV { return w.bigAdd(x, w.bigNeg(y)) }
func (w *World) bigMul(x, y *BigV) *BigV {
	if x.c != nil && y.c != nil {
		return bigC(new(big.Int).Mul(x.c, y.c))
	}
	return w.polyBig(polyMul(x.poly(), y.poly(), nil))
}

// bigCmp is the -1/0/1 result as an int value.
func (w *World) bigCmp(x, y *BigV) Val {
	if x.c != nil && y.c != nil {
		return intV(x.c.Cmp(y.c))
	}
	return w.bigSign(w.bigSub(x, y))
}

func (w *World) bigSign(d *BigV) Val {
	if d.c != nil {
		return intV(d.c.Sign())
	}
	eq, lt := w.bigZ(d)
	t := w.m.Ite(eq, w.m.C(64, 0), w.m.Ite(lt, w.m.C(64, ^uint64(0)), w.m.C(64, 1)))
	return w.fromTerm(t, scalar{64, true, true, false})
}

// bigSplit forks on the sign and gives the magnitude.
func (w *World) bigSplit(v *BigV) (neg bool, mag *BigV) {
	if v.c != nil {
		return v.c.Sign() < 0, bigC(new(big.Int).Abs(v.c))
	}
	if v.lo.Sign() >= 0 {
		return false, v
	}
	if v.hi.Sign() <= 0 {
		return true, w.bigNeg(v)
	}
	_, lt := w.bigZ(v)
	if w.branch(lt) {
		n := w.bigNeg(v)
		return true, &BigV{p: n.p, c: n.c, lo: bigOne, hi: n.hi}
	}
	return false, &BigV{p: v.p, c: v.c, lo: bigZero, hi: v.hi}
}

// magLen forks on the byte length of a non-negative value.
func (w *World) magLen(v *BigV) int {
	if v.c != nil {
		return (v.c.BitLen() + 7) / 8
	}
	nb := (v.hi.BitLen() + 7) / 8
	wd := v.width()
	s := w.bigState()
	key := v.p.key()
	if n, ok := s.klen[key]; ok {
		return n
	}
	if s.klen == nil {
		s.klen = map[string]int{}
	}
	t := w.bv(v, wd)
	lowest := 0
	limited := false
	if nb >= 20 { // long numbers: few leading zero bytes are explored, the rest lies outside the bound
		lowest = nb - 1 - w.ex.LeadZeros
		limited = true
	}
	n := nb
	for ; n > lowest; n-- {
		if w.branch(w.m.BNot(w.m.Eq(w.m.Extract(t, 8*(n-1), wd-8*(n-1)), w.m.C(wd-8*(n-1), 0)))) {
			s.klen[key] = n
			return n
		}
	}
	if limited {
		if w.branch(w.bigIsZero(v)) {
			s.klen[key] = 0
			return 0
		}
		w.note(fmt.Sprintf("bound: numbers with more than %d leading zero bytes not explored", w.ex.LeadZeros))
		panic(&pathEnd{"bound", "leading zero bytes"})
	}
	return n
}

func (w *World) bigBytes(v *BigV) []Val {
	_, mag := w.bigSplit(v)
	n := w.magLen(mag)
	return w.magBytes(mag, n)
}

func (w *World) magBytes(mag *BigV, n int) []Val {
	e := make([]Val, n)
	if n == 0 {
		return e
	}
	t := w.bv(mag, max(8*n, 1))
	known := n
	if mag.c == nil {
		if k, ok := w.bigState().klen[mag.p.key()]; ok && k < n {
			known = k
		}
	}
	parts := make([]*Term, n)
	for i := range e {
		b := w.m.Extract(t, 8*(n-1-i), 8)
		if n-1-i >= known { // decided to be zero on this path
			b = w.m.C(8, 0)
		}
		parts[i] = b
		e[i] = w.fromTerm(b, u8)
	}
	if mag.c == nil && known > 0 {
		cat := w.m.Concat(parts[n-known:]...)
		s := w.bigState()
		if _, ok := s.alias[cat]; !ok {
			if _, ok := s.byTerm[cat]; !ok {
				s.alias[cat] = &BigV{p: mag.p, lo: mag.lo, hi: mag.hi}
			}
		}
	}
	return e
}

func (w *World) bigFromBytes(e []Val) *BigV {
	for len(e) > 0 && e[0].P == nil && e[0].N == 0 {
		e = e[1:]
	}
	if len(e) == 0 {
		return bigC(bigZero)
	}
	parts := make([]*Term, len(e))
	for i := range e {
		parts[i] = w.term(e[i], 8)
	}
	return w.atomOf(w.m.Concat(parts...))
}

func (w *World) bigConst(v *BigV, what string) *big.Int {
	if v.c == nil {
		panic(unsupported("big.Int." + what + " of a symbolic value"))
	}
	return v.c
}

func (w *World) bigInverse(x *BigV, M *big.Int) *BigV {
	if x.c != nil {
		r := new(big.Int).ModInverse(x.c, M)
		if r == nil {
			return nil
		}
		return bigC(r)
	}
	if !w.isPrime(M) {
		panic(unsupported("ModInverse for a composite modulus"))
	}
	r := w.canon(x.p, M)
	if w.branch(w.ratIsZero(r, M)) {
		return nil
	}
	num, lc := r.num.monic(M)
	inv := new(big.Int).ModInverse(lc, M)
	q := &Rat{polyScale(prodPoly(r.den, M), inv, M), []*Poly{num}}
	q = q.simplify(M)
	w.ringLemma("inv", r, nil, q, M)
	return w.residue(q, M)
}

func init() {
	pkgIntr["math/big"] = func(f *ssa.Function) Intrinsic {
		n := f.String()
		if f.Synthetic != "" {
			return nil
		}
		return func(w *World, a []Val) Val { panic(unsupported("call of " + n)) }
	}
	skipInit["math/big"] = true
	bi := func(name string, f func(w *World, z Val, a []Val) Val) {
		reg("(*math/big.Int)."+name, func(w *World, a []Val) Val { return f(w, a[0], a[1:]) })
	}
	reg("math/big.NewInt", func(w *World, a []Val) Val { return w.bigNew(w.bigFromInt64(a[0])) })
	bi("SetInt64", func(w *World, z Val, a []Val) Val { return w.bigPut(z, w.bigFromInt64(a[0])) })
	bi("SetUint64", func(w *World, z Val, a []Val) Val {
		if a[0].P == nil {
			return w.bigPut(z, bigC(new(big.Int).SetUint64(a[0].N)))
		}
		return w.bigPut(z, w.atomOf(w.term(a[0], 64)))
	})
	bi("SetBytes", func(w *World, z Val, a []Val) Val { return w.bigPut(z, w.bigFromBytes(sliceElems(a[0]))) })
	bi("Bytes", func(w *World, z Val, a []Val) Val { return Val{P: &Slice{w.bigBytes(w.bigGet(z))}} })
	bi("FillBytes", func(w *World, z Val, a []Val) Val {
		buf := sliceElems(a[0])
		_, mag := w.bigSplit(w.bigGet(z))
		if mag.hi.BitLen() > 8*len(buf) {
			wd := mag.width()
			if w.branch(w.m.BNot(w.m.Ult(w.bv(mag, wd), w.m.BigC(wd, pow2(8*len(buf)))))) {
				w.goPanicStr("math/big: buffer too small to fit value")
			}
		}
		for i, b := range w.magBytes(mag, len(buf)) {
			w.store(&buf[i], b)
		}
		return a[0]
	})
	bi("Set", func(w *World, z Val, a []Val) Val { return w.bigPut(z, w.bigGet(a[0])) })
	bi("Neg", func(w *World, z Val, a []Val) Val { return w.bigPut(z, w.bigNeg(w.bigGet(a[0]))) })
	bi("Abs", func(w *World, z Val, a []Val) Val {
		_, m := w.bigSplit(w.bigGet(a[0]))
		return w.bigPut(z, m)
	})
	bin := func(name string, f func(w *World, x, y *BigV) *BigV) {
		bi(name, func(w *World, z Val, a []Val) Val {
			return w.bigPut(z, f(w, w.bigGet(a[0]), w.bigGet(a[1])))
		})
	}
	bin("Add", func(w *World, x, y *BigV) *BigV { return w.bigAdd(x, y) })
	bin("Sub", func(w *World, x, y *BigV) *BigV { return w.bigSub(x, y) })
	bin("Mul", func(w *World, x, y *BigV) *BigV { return w.bigMul(x, y) })
	bin("Mod", func(w *World, x, y *BigV) *BigV {
		M := w.bigConst(y, "Mod modulus")
		if M.Sign() == 0 {
			w.goPanicStr("division by zero")
		}
		return w.bigMod(x, new(big.Int).Abs(M))
	})
	tr := func(rem bool) func(w *World, x, y *BigV) *BigV {
		return func(w *World, x, y *BigV) *BigV {
			M := w.bigConst(y, "division by")
			if M.Sign() == 0 {
				w.goPanicStr("division by zero")
			}
			if x.c != nil {
				if rem {
					return bigC(new(big.Int).Rem(x.c, M))
				}
				return bigC(new(big.Int).Quo(x.c, M))
			}
			neg, mag := w.bigSplit(x)
			am := new(big.Int).Abs(M)
			if rem {
				r := w.bigMod(mag, am)
				if neg {
					r = w.bigNeg(r)
				}
				return r
			}
			wd := max(mag.width(), am.BitLen())
			q := w.atomOf(w.m.DivRem(OUDiv, w.bv(mag, wd), w.m.BigC(wd, am)))
			if neg != (M.Sign() < 0) {
				q = w.bigNeg(q)
			}
			return q
		}
	}
	bin("Rem", tr(true))
	bin("Quo", tr(false))
	bin("Div", func(w *World, x, y *BigV) *BigV {
		if x.c != nil && y.c != nil {
			if y.c.Sign() == 0 {
				w.goPanicStr("division by zero")
			}
			return bigC(new(big.Int).Div(x.c, y.c))
		}
		if x.lo.Sign() >= 0 && y.c != nil && y.c.Sign() > 0 {
			return tr(false)(w, x, y)
		}
		panic(unsupported("big.Int.Div"))
	})
	logic := func(name string, cf func(z, x, y *big.Int) *big.Int, sf func(m *TM, a, b *Term) *Term) {
		bin(name, func(w *World, x, y *BigV) *BigV {
			if x.c != nil && y.c != nil {
				return bigC(cf(new(big.Int), x.c, y.c))
			}
			if x.lo.Sign() < 0 || y.lo.Sign() < 0 {
				panic(unsupported("big.Int." + name + " of a possibly negative value"))
			}
			wd := max(x.hi.BitLen(), y.hi.BitLen())
			return w.trimAtom(sf(w.m, w.bv(x, wd), w.bv(y, wd)))
		})
	}
	logic("And", (*big.Int).And, func(m *TM, a, b *Term) *Term { return m.And(a, b) })
	logic("Or", (*big.Int).Or, func(m *TM, a, b *Term) *Term { return m.Or(a, b) })
	logic("Xor", (*big.Int).Xor, func(m *TM, a, b *Term) *Term { return m.Xor(a, b) })
	bi("AndNot", func(w *World, z Val, a []Val) Val {
		x, y := w.bigConst(w.bigGet(a[0]), "AndNot"), w.bigConst(w.bigGet(a[1]), "AndNot")
		return w.bigPut(z, bigC(new(big.Int).AndNot(x, y)))
	})
	bi("Not", func(w *World, z Val, a []Val) Val {
		return w.bigPut(z, w.bigSub(bigC(big.NewInt(-1)), w.bigGet(a[0])))
	})
	bi("Lsh", func(w *World, z Val, a []Val) Val {
		n := w.conc(a[1], 64)
		if n > 1<<20 {
			panic(unsupported("huge shift"))
		}
		return w.bigPut(z, w.bigMul(w.bigGet(a[0]), bigC(pow2(int(n)))))
	})
	bi("Rsh", func(w *World, z Val, a []Val) Val {
		n := int(w.conc(a[1], 64))
		x := w.bigGet(a[0])
		if x.c != nil {
			return w.bigPut(z, bigC(new(big.Int).Rsh(x.c, uint(n))))
		}
		if x.lo.Sign() < 0 {
			panic(unsupported("right shift of a possibly negative value"))
		}
		wd := x.hi.BitLen()
		if n >= wd {
			return w.bigPut(z, bigC(bigZero))
		}
		return w.bigPut(z, w.atomOf(w.m.Extract(w.bv(x, wd), n, wd-n)))
	})
	bi("SetBit", func(w *World, z Val, a []Val) Val {
		x := w.bigGet(a[0])
		i := w.concInt(a[1])
		b := w.conc(a[2], 64)
		if i < 0 {
			w.goPanicStr("negative bit index")
		}
		if x.c != nil {
			return w.bigPut(z, bigC(new(big.Int).SetBit(x.c, i, uint(b))))
		}
		if x.lo.Sign() < 0 {
			panic(unsupported("SetBit of a possibly negative value"))
		}
		wd := max(x.hi.BitLen(), i+1)
		t := w.bv(x, wd)
		mk := w.m.BigC(wd, pow2(i))
		if b == 1 {
			t = w.m.Or(t, mk)
		} else {
			t = w.m.And(t, w.m.Not(mk))
		}
		return w.bigPut(z, w.trimAtom(t))
	})
	bi("Bit", func(w *World, z Val, a []Val) Val {
		x := w.bigGet(z)
		i := w.concInt(a[0])
		if x.c != nil {
			return Val{N: uint64(x.c.Bit(i))}
		}
		wd := max(x.width(), i+1)
		t := w.bv(x, x.width())
		if wd > x.width() {
			t = w.m.SExt(t, wd)
		}
		return w.fromTerm(w.m.ZExt(w.m.Extract(t, i, 1), 64), u64s)
	})
	bi("Sign", func(w *World, z Val, a []Val) Val { return w.bigSign(w.bigGet(z)) })
	bi("Cmp", func(w *World, z Val, a []Val) Val { return w.bigCmp(w.bigGet(z), w.bigGet(a[0])) })
	bi("CmpAbs", func(w *World, z Val, a []Val) Val {
		_, x := w.bigSplit(w.bigGet(z))
		_, y := w.bigSplit(w.bigGet(a[0]))
		return w.bigCmp(x, y)
	})
	bi("BitLen", func(w *World, z Val, a []Val) Val {
		x := w.bigGet(z)
		if x.c != nil {
			return intV(x.c.BitLen())
		}
		_, mag := w.bigSplit(x)
		n := w.magLen(mag)
		if n == 0 {
			return intV(0)
		}
		t := w.m.Extract(w.bv(mag, 8*n), 8*(n-1), 8)
		r := w.m.C(64, uint64(8*(n-1)+1))
		for i := 1; i < 8; i++ {
			r = w.m.Ite(w.m.Eq(w.m.Extract(t, i, 8-i), w.m.C(8-i, 0)), r, w.m.C(64, uint64(8*(n-1)+i+1)))
		}
		return w.fromTerm(r, scalar{64, true, true, false})
	})
	bi("IsInt64", func(w *World, z Val, a []Val) Val {
		x := w.bigGet(z)
		if x.c != nil {
			return bV(x.c.IsInt64())
		}
		lo, hi := bigC(big.NewInt(-1<<63)), bigC(new(big.Int).SetUint64(1<<63))
		return fromBool(w.m.BAnd(w.m.BNot(w.ltZ(w.bigSub(x, lo))), w.ltZ(w.bigSub(x, hi))))
	})
	bi("IsUint64", func(w *World, z Val, a []Val) Val {
		x := w.bigGet(z)
		if x.c != nil {
			return bV(x.c.IsUint64())
		}
		return fromBool(w.m.BAnd(w.m.BNot(w.ltZ(x)), w.ltZ(w.bigSub(x, bigC(pow2(64))))))
	})
	low := func(w *World, z Val, a []Val) Val {
		x := w.bigGet(z)
		if x.c != nil {
			return Val{N: new(big.Int).And(x.c, bigMask(64)).Uint64()}
		}
		return w.fromTerm(w.m.Extract(w.bvAny(x, 64), 0, 64), u64s)
	}
	bi("Int64", low)
	bi("Uint64", low)
	bi("SetString", func(w *World, z Val, a []Val) Val {
		s := w.mustStr(a[0])
		v, ok := new(big.Int).SetString(s, w.concInt(a[1]))
		if !ok {
			return tupV(Val{}, bV(false))
		}
		w.bigPut(z, bigC(v))
		return tupV(z, bV(true))
	})
	bi("String", func(w *World, z Val, a []Val) Val {
		if z.P == nil {
			return strV("<nil>")
		}
		return strV(w.bigConst(w.bigGet(z), "String").String())
	})
	bi("Text", func(w *World, z Val, a []Val) Val {
		return strV(w.bigConst(w.bigGet(z), "Text").Text(w.concInt(a[0])))
	})
	bi("ModInverse", func(w *World, z Val, a []Val) Val {
		M := w.bigConst(w.bigGet(a[1]), "ModInverse modulus")
		if M.Sign() == 0 {
			w.goPanicStr("division by zero")
		}
		r := w.bigInverse(w.bigGet(a[0]), new(big.Int).Abs(M))
		if r == nil {
			return Val{}
		}
		return w.bigPut(z, r)
	})
	bi("Exp", func(w *World, z Val, a []Val) Val {
		x, y := w.bigGet(a[0]), w.bigGet(a[1])
		var M *big.Int
		if a[2].P != nil {
			M = w.bigConst(w.bigGet(a[2]), "Exp modulus")
		}
		if x.c != nil && y.c != nil {
			v := new(big.Int).Exp(x.c, y.c, M)
			if v == nil {
				return Val{}
			}
			return w.bigPut(z, bigC(v))
		}
		if y.c != nil && y.c.IsInt64() && y.c.Sign() >= 0 && y.c.Int64() <= 16 && M != nil && M.Sign() > 0 {
			r := bigC(bigOne)
			for i := int64(0); i < y.c.Int64(); i++ {
				r = w.bigMul(r, x)
			}
			return w.bigPut(z, w.bigMod(r, M))
		}
		// Fermat inverse: x^(M-2)
		if M != nil && y.c != nil && w.isPrime(M) && new(big.Int).Add(y.c, big.NewInt(2)).Cmp(M) == 0 {
			r := w.bigInverse(x, M)
			if r == nil {
				r = bigC(bigZero)
			}
			return w.bigPut(z, r)
		}
		panic(unsupported("big.Int.Exp of symbolic values"))
	})
	cc := func(name string, f func(z *big.Int, a []*big.Int) *big.Int) {
		bi(name, func(w *World, z Val, a []Val) Val {
			var v []*big.Int
			for _, x := range a {
				v = append(v, w.bigConst(w.bigGet(x), name))
			}
			r := f(new(big.Int), v)
			if r == nil {
				return Val{}
			}
			return w.bigPut(z, bigC(r))
		})
	}
	cc("Sqrt", func(z *big.Int, a []*big.Int) *big.Int { return z.Sqrt(a[0]) })
	cc("ModSqrt", func(z *big.Int, a []*big.Int) *big.Int { return z.ModSqrt(a[0], a[1]) })
	bi("ProbablyPrime", func(w *World, z Val, a []Val) Val {
		return bV(w.bigConst(w.bigGet(z), "ProbablyPrime").ProbablyPrime(w.concInt(a[0])))
	})
	bi("TrailingZeroBits", func(w *World, z Val, a []Val) Val {
		return Val{N: uint64(w.bigConst(w.bigGet(z), "TrailingZeroBits").TrailingZeroBits())}
	})
}

func (w *World) ltZ(v *BigV) *Term { _, lt := w.bigZ(v); return lt }

func (w *World) bvAny(v *BigV, min int) *Term {
	wd := max(v.width(), min)
	t := w.bv(v, wd)
	return t
}

// trimAtom drops constant zero high bits.
func (w *World) trimAtom(t *Term) *BigV {
	if c, ok := t.constBig(); ok {
		return bigC(c)
	}
	n := t.w
	top := new(big.Int) // constant leading bits
	for n > 1 {
		b, ok := w.m.Extract(t, n-1, 1).constBig()
		if !ok {
			break
		}
		n--
		if b.Sign() != 0 {
			top.SetBit(top, n, 1)
		}
	}
	if n < t.w {
		t = w.m.Extract(t, 0, n)
	}
	if top.Sign() != 0 {
		return w.bigAdd(bigC(top), w.trimAtom(t))
	}
	return w.atomOf(t)
}

func (w *World) bigFromInt64(v Val) *BigV {
	if v.P == nil {
		return bigC(big.NewInt(int64(v.N)))
	}
	t := w.term(v, 64)
	if w.branch(w.m.Eq(w.m.Extract(t, 63, 1), w.m.C(1, 1))) {
		return w.bigNeg(w.atomOf(w.m.Neg(t)))
	}
	return w.trimAtom(w.m.ZExt(w.m.Extract(t, 0, 63), 64))
}

// ringLemma records a step of modular arithmetic for independent discharge.
func (w *World) ringLemma(op string, a, b, r *Rat, M *big.Int) {}

func (t *Term) constBig() (*big.Int, bool) {
	if t.op != OConst {
		return nil, false
	}
	return t.bigVal(), true
}

// dumpBig prints the integer atoms under a model (debugging).
func (w *World) dumpBig(m *Model) {
	s := w.bigState()
	w.m.gen++
	for id, a := range s.atoms {
		r := ""
		if a.rat != nil {
			r = a.rat.num.show()
			for _, d := range a.rat.den {
				r += " / " + d.show()
			}
		}
		if len(r) > 300 {
			r = r[:300]
		}
		fmt.Fprintf(os.Stderr, "a%d %s w=%d v=%s rat=%s\n", id, a.why, a.t.w, w.m.Eval(a.t, m).Text(16), r)
	}
	for _, p := range s.zpoly {
		z := w.ratIsZero(&Rat{num: p}, sm2C.N)
		fmt.Fprintf(os.Stderr, "zero %.300s = %s\n", p.show(), w.m.Eval(z, m).Text(16))
	}
	w.m.gen++
}

func (p *Poly) show() (s string) {
	for _, m := range p.sorted() {
		s += fmt.Sprintf("+%s*%v", m.c.Text(16), m.e)
	}
	return
}
