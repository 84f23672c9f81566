package main

import (
	"crypto/elliptic"
	"fmt"
	"go/types"
	"math/big"
)

// A model of the group of the SM2 curve behind crypto/elliptic.CurveParams. A point is known by its
// discrete logarithm to the base G, a rational function modulo n; its coordinates are atoms that are
// functions of it up to sign. Nothing is assumed about coordinates except x,y < p, y != 0, and that
// two points have the same x exactly when they are equal or opposite.

var sm2C = func() *elliptic.CurveParams {
	h := func(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }
	return &elliptic.CurveParams{
		P:       h("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF"),
		N:       h("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123"),
		B:       h("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93"),
		Gx:      h("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7"),
		Gy:      h("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0"),
		BitSize: 256}
}()

type ecPoint struct {
	u    *Rat
	x, y *BigV
}

type ecUnknown struct {
	x, y *BigV
	on   *Term
}

type ecSt struct {
	zeros []*Rat // logarithms found to be zero on this path
	pts   []*ecPoint
	unk   []*ecUnknown
}

func (w *World) ec() *ecSt {
	s := w.bigState()
	if s.pts == nil {
		s.pts = &ecSt{}
		s.pts.pts = append(s.pts.pts, &ecPoint{&Rat{num: polyC(bigOne)}, bigC(sm2C.Gx), bigC(sm2C.Gy)})
	}
	return s.pts
}

// ecCurve checks that the receiver carries the SM2 parameters.
func (w *World) ecCurve(v Val) {
	p, ok := v.P.(*Val)
	if !ok {
		w.goPanicStr("invalid memory address or nil pointer dereference")
	}
	a, ok := p.P.(*Agg)
	if !ok || len(a.e) != 7 {
		panic(unsupported("elliptic.CurveParams layout"))
	}
	for i, want := range []*big.Int{sm2C.P, sm2C.N, sm2C.B, sm2C.Gx, sm2C.Gy} {
		g := w.bigGet(a.e[i])
		if g.c == nil || g.c.Cmp(want) != 0 {
			panic(unsupported("elliptic curve other than SM2"))
		}
	}
}

func bigSame(a, b *BigV) bool {
	if a == b {
		return true
	}
	if a.c != nil || b.c != nil {
		return a.c != nil && b.c != nil && a.c.Cmp(b.c) == 0
	}
	return a.p.equal(b.p)
}

// eqT is the equality of two numbers as a term.
func (w *World) bigEqT(a, b *BigV) *Term {
	if bigSame(a, b) {
		return w.m.T
	}
	eq, _ := w.bigZ(w.bigSub(a, b))
	return eq
}

func (w *World) negY(y *BigV) *BigV { return w.bigSub(bigC(sm2C.P), y) }

// ecLink states how a new point relates to the known ones.
func (w *World) ecLink(np *ecPoint) {
	s := w.ec()
	for _, q := range s.pts {
		same := w.ratIsZero(ratAdd(np.u, ratNeg(q.u, sm2C.N), sm2C.N), sm2C.N)
		opp := w.ratIsZero(ratAdd(np.u, q.u, sm2C.N), sm2C.N)
		xe := w.bigEqT(np.x, q.x)
		ye := w.bigEqT(np.y, q.y)
		w.assume(w.m.Eq(xe, w.m.BOr(same, opp)))
		w.assume(w.m.BOr(w.m.BNot(same), ye))
		w.assume(w.m.BOr(w.m.BNot(w.m.BAnd(xe, ye)), same))
		w.assume(w.m.BOr(w.m.BNot(opp), w.bigEqT(w.bigAdd(np.y, q.y), bigC(sm2C.P))))
	}
	for _, k := range s.unk {
		eq := w.m.BAnd(w.bigEqT(np.x, k.x), w.m.BOr(w.bigEqT(np.y, k.y), w.bigEqT(w.bigAdd(np.y, k.y), bigC(sm2C.P))))
		w.assume(w.m.BOr(k.on, w.m.BNot(eq)))
	}
	s.pts = append(s.pts, np)
}

// ecCoords gives the coordinates of [u]G.
func (w *World) ecCoords(u *Rat) (x, y *BigV) {
	n := sm2C.N
	s := w.ec()
	if w.branch(w.ratIsZero(u, n)) {
		if _, c := u.isConst(); !c {
			s.zeros = append(s.zeros, u)
		}
		return bigC(bigZero), bigC(bigZero)
	}
	nu := ratNeg(u, n)
	for _, q := range s.pts {
		if ratEqual(q.u, u, n) {
			return q.x, q.y
		}
		if ratEqual(q.u, nu, n) {
			return q.x, w.negY(q.y)
		}
	}
	if c, ok := u.isConst(); ok {
		cx, cy := sm2C.ScalarBaseMult(new(big.Int).Mod(c, n).Bytes())
		x, y = bigC(cx), bigC(cy)
	} else {
		pm1 := new(big.Int).Sub(sm2C.P, bigOne)
		var vx, vy *big.Int
		if v := w.ratValue(u, n); v != nil {
			vx, vy = sm2C.ScalarBaseMult(v.Bytes())
		}
		x = w.polyBig(polyAtom(w.newAtom(256, pm1, "x", vx)))
		yi := w.newAtom(256, pm1, "y", vy)
		w.bigState().atoms[yi].lo = bigOne
		w.assume(w.m.BNot(w.m.Eq(w.bigState().atoms[yi].t, w.m.C(256, 0))))
		y = w.polyBig(polyAtom(yi))
		w.ex.assume("the group law of crypto/elliptic on the SM2 curve: points are modelled by their discrete logarithms, coordinates by arbitrary values below p that agree exactly for equal and opposite points")
	}
	w.ecLink(&ecPoint{u, x, y})
	return x, y
}

// ecPointOf finds the logarithm of a given point. on=false: not a point of the curve.
func (w *World) ecPointOf(x, y *BigV) (u *Rat, inf, on bool) {
	n := sm2C.N
	if x.c != nil && y.c != nil {
		if x.c.Sign() == 0 && y.c.Sign() == 0 {
			return nil, true, true
		}
		if !sm2C.IsOnCurve(x.c, y.c) {
			return nil, false, false
		}
	}
	s := w.ec()
	for _, q := range s.pts {
		if bigSame(q.x, x) {
			if bigSame(q.y, y) {
				return q.u, false, true
			}
			if bigSame(w.negY(q.y), y) {
				return ratNeg(q.u, n), false, true
			}
		}
	}
	if x.c == nil || y.c == nil {
		xz, _ := w.bigZ(x)
		yz, _ := w.bigZ(y)
		if w.branch(w.m.BAnd(xz, yz)) {
			return nil, true, true
		}
		var k *ecUnknown
		for _, e := range s.unk {
			if bigSame(e.x, x) && bigSame(e.y, y) {
				k = e
			}
		}
		if k == nil {
			k = &ecUnknown{x, y, w.m.Eq(w.m.Var(1, fmt.Sprintf("oncurve#%d", len(s.unk))), w.m.C(1, 1))}
			s.unk = append(s.unk, k)
			w.stubbed = true
			P := bigC(sm2C.P)
			_, xn := w.bigZ(x)
			_, yn := w.bigZ(y)
			in := w.m.BAnd(w.m.BAnd(w.m.BNot(xn), w.m.BNot(yn)), w.m.BAnd(w.ltZ(w.bigSub(x, P)), w.ltZ(w.bigSub(y, P))))
			w.assume(w.m.BOr(w.m.BNot(k.on), w.m.BAnd(in, w.m.BNot(yz))))
			for _, q := range s.pts {
				eq := w.m.BAnd(w.bigEqT(x, q.x), w.m.BOr(w.bigEqT(y, q.y), w.bigEqT(w.bigAdd(y, q.y), P)))
				w.assume(w.m.BOr(k.on, w.m.BNot(eq)))
			}
			w.ex.assume("whether a symbolic coordinate pair lies on the curve is an unconstrained choice (both outcomes explored)")
		}
		if !w.branch(k.on) {
			return nil, false, false
		}
		pm1 := new(big.Int).Sub(sm2C.P, bigOne)
		x = &BigV{c: x.c, p: x.p, lo: x.lo, hi: minBig(x.hi, pm1)}
		y = &BigV{c: y.c, p: y.p, lo: y.lo, hi: minBig(y.hi, pm1)}
	}
	id := w.newAtom(256, new(big.Int).Sub(n, bigOne), "dlog", new(big.Int).Sub(pow2(200), big.NewInt(int64(1000003*len(w.bigState().atoms)))))
	a := w.bigState().atoms[id]
	a.lo = bigOne
	w.assume(w.m.BNot(w.m.Eq(a.t, w.m.C(256, 0))))
	u = &Rat{num: polyAtom(id)}
	w.ecLink(&ecPoint{u, x, y})
	return u, false, true
}

func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

func (w *World) scalarRat(v *BigV) *Rat {
	if v.c != nil {
		return &Rat{num: polyC(new(big.Int).Mod(v.c, sm2C.N))}
	}
	return w.canon(v.p, sm2C.N)
}

func (w *World) pointPair(x, y *BigV) Val { return tupV(w.bigNew(x), w.bigNew(y)) }

func (w *World) ecOperand(x, y Val) (*Rat, bool) {
	u, inf, on := w.ecPointOf(w.bigGet(x), w.bigGet(y))
	if !on {
		w.goPanicStr("crypto/elliptic: attempted operation on invalid point")
	}
	return u, inf
}

func (w *World) ecAdd(u1 *Rat, i1 bool, u2 *Rat, i2 bool) Val {
	switch {
	case i1 && i2:
		return w.pointPair(bigC(bigZero), bigC(bigZero))
	case i1:
		return w.pointPair(w.ecCoords(u2))
	case i2:
		return w.pointPair(w.ecCoords(u1))
	}
	return w.pointPair(w.ecCoords(ratAdd(u1, u2, sm2C.N)))
}

func init() {
	const cp = "(*crypto/elliptic.CurveParams)."
	reg(cp+"IsOnCurve", func(w *World, a []Val) Val {
		w.ecCurve(a[0])
		_, inf, on := w.ecPointOf(w.bigGet(a[1]), w.bigGet(a[2]))
		return bV(on && !inf)
	})
	reg(cp+"Add", func(w *World, a []Val) Val {
		w.ecCurve(a[0])
		u1, i1 := w.ecOperand(a[1], a[2])
		u2, i2 := w.ecOperand(a[3], a[4])
		return w.ecAdd(u1, i1, u2, i2)
	})
	reg(cp+"Double", func(w *World, a []Val) Val {
		w.ecCurve(a[0])
		u, i := w.ecOperand(a[1], a[2])
		return w.ecAdd(u, i, u, i)
	})
	mult := func(w *World, u *Rat, inf bool, k Val) Val {
		n := sm2C.N
		s := w.scalarRat(w.bigFromBytes(sliceElems(k)))
		if inf {
			for _, z := range w.ec().zeros { // the multiple of what is known to be zero is zero
				if _, c := s.isConst(); !c {
					w.assume(w.ratIsZero(ratMul(z, s, n), n))
				}
			}
			return w.pointPair(bigC(bigZero), bigC(bigZero))
		}
		p := ratMul(u, s, n)
		w.factor(u.num, n)
		w.factor(s.num, n)
		_, cu := u.isConst()
		_, cs := s.isConst()
		if !cu && !cs { // n is prime: a product is zero only with a factor
			w.assume(w.m.Eq(w.ratIsZero(p, n), w.m.BOr(w.ratIsZero(u, n), w.ratIsZero(s, n))))
		}
		return w.pointPair(w.ecCoords(p))
	}
	reg(cp+"ScalarMult", func(w *World, a []Val) Val {
		w.ecCurve(a[0])
		u, inf := w.ecOperand(a[1], a[2])
		return mult(w, u, inf, a[3])
	})
	reg(cp+"ScalarBaseMult", func(w *World, a []Val) Val {
		w.ecCurve(a[0])
		return mult(w, &Rat{num: polyC(bigOne)}, false, a[1])
	})
	reg(symPkg+"Big", func(w *World, a []Val) Val {
		name := w.inputName(w.mustStr(a[0]))
		t := w.m.Var(w.concInt(a[1]), name)
		w.inputs = append(w.inputs, InputRec{Name: name, Kind: "big", T: []*Term{t}})
		return w.bigNew(w.atomOf(t))
	})
	reg(symPkg+"BigIn", func(w *World, a []Val) Val {
		name := w.inputName(w.mustStr(a[0]))
		lo, hi := w.bigConst(w.bigGet(a[1]), "BigIn bound"), w.bigConst(w.bigGet(a[2]), "BigIn bound")
		t := w.m.Var(hi.BitLen(), name)
		w.inputs = append(w.inputs, InputRec{Name: name, Kind: "big", T: []*Term{t}})
		v := w.atomOf(t)
		if id, ok := w.soleAtom(v); ok {
			at := w.bigState().atoms[id]
			at.lo, at.hi = lo, hi
			v = w.polyBig(polyAtom(id))
		}
		if w.model != nil && w.model.vars[name] == nil {
			v := new(big.Int).SetBytes(sm3Sum([]byte(name)))
			w.suggest(name, v.Add(v.Mod(v, new(big.Int).Sub(hi, lo)), lo))
		}
		w.assume(w.m.BAnd(w.m.BNot(w.m.Ult(t, w.m.BigC(t.w, lo))), w.m.Ule(t, w.m.BigC(t.w, hi))))
		return w.bigNew(v)
	})
	reg(symPkg+"BigEq", func(w *World, a []Val) Val {
		return fromBool(w.bigEqT(w.bigGet(a[0]), w.bigGet(a[1])))
	})
	reg(symPkg+"BigLess", func(w *World, a []Val) Val {
		return fromBool(w.ltZ(w.bigSub(w.bigGet(a[0]), w.bigGet(a[1]))))
	})
	reg(symPkg+"CurveID", func(w *World, a []Val) Val { return intV(0) })
	reg(symPkg+"Hash", func(w *World, a []Val) Val {
		e := sliceElems(a[0])
		w.stubbed = true
		w.ex.assume("SM3 inside the SM2 checks is an uninterpreted function of the hashed bytes (its computation is decided by C01-C03)")
		var t *Term
		if len(e) == 0 {
			t = w.m.Var(256, "SM3_0")
			w.suggest(t.name, new(big.Int).SetBytes(sm3Sum(nil)))
		} else {
			ps := make([]*Term, len(e))
			for i := range e {
				ps[i] = w.term(e[i], 8)
			}
			t = w.m.UF(256, fmt.Sprintf("SM3_%d", len(e)), w.m.Concat(ps...))
		}
		out := make([]Val, 32)
		for i := range out {
			out[i] = w.fromTerm(w.m.Extract(t, 8*(31-i), 8), u8)
		}
		return Val{P: &Slice{out}}
	})
	reg(symPkg+"StubSM3", func(w *World, a []Val) Val {
		w.redirect = map[*Fn]*Fn{}
		for _, n := range []string{"New", "Sum"} {
			from, to := w.ex.P.lookup(repoModule+"/sm3", n), w.ex.P.lookup("gmharness/stub", n)
			if to == nil {
				panic(unsupported("no stub for sm3." + n))
			}
			if from != nil {
				w.redirect[from] = to
			}
		}
		return Val{}
	})
}

// lookup finds a package-level function.
func (P *Prog) lookup(pkg, name string) *Fn {
	p := P.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	f := p.Func(name)
	if f == nil {
		return nil
	}
	if _, ok := f.Object().(*types.Func); !ok {
		return nil
	}
	return P.fn(f)
}
