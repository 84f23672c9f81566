package h

import (
	"crypto/elliptic"
	"crypto/rand"
	"errors"
	"io"
	"math/big"

	_ "gmharness/stub"
	"gmharness/sym"

	"github.com/ZZMarquis/gm/sm2"
	"github.com/ZZMarquis/gm/util"
)

// ---- shared pieces of the SM2 harnesses ----

var (
	one     = big.NewInt(1)
	errRand = errors.New("random source failed")
)

type toy struct{ p, b, n, x, y int64 }

// Small curves y^2 = x^3 - 3x + b of prime order, used only when a counterexample is confirmed natively.
var toys = []toy{{43, 10, 37, 6, 6}, {251, 26, 223, 2, 84}, {65003, 75, 64579, 2, 30498}}

func curve() sm2.P256V1Curve {
	k := sym.CurveID()
	if k == 0 {
		return sm2.GetSm2P256V1()
	}
	t := toys[k-1]
	return sm2.P256V1Curve{
		CurveParams: &elliptic.CurveParams{P: big.NewInt(t.p), N: big.NewInt(t.n), B: big.NewInt(t.b),
			Gx: big.NewInt(t.x), Gy: big.NewInt(t.y), BitSize: 256, Name: "toy"},
		A: big.NewInt(t.p - 3)}
}

// stdOnly ends the path on a small curve (functions that use the package's curve).
func stdOnly() {
	if sym.CurveID() != 0 {
		sym.Stop()
	}
}

// rnd is the random source: every read delivers arbitrary bytes, or an error at a chosen read.
type rnd struct {
	draws  [][]byte
	failAt int // index of the failing read, -1: none
	max    int
	failed bool
	first  []byte // the first read, if its length fits
	chunk  int    // bytes delivered per read, 0: all
	all    []byte // everything delivered
}

func (r *rnd) Read(p []byte) (int, error) {
	if len(r.draws) == r.failAt {
		r.failed = true
		return 0, errRand
	}
	if len(r.draws) >= r.max {
		sym.Stop()
	}
	if r.chunk > 0 && r.chunk < len(p) {
		p = p[:r.chunk]
	}
	b := r.first
	if len(r.draws) > 0 || len(b) != len(p) {
		b = sym.Bytes("rnd", len(p))
	}
	copy(p, b)
	r.draws = append(r.draws, b)
	r.all = append(r.all, b...)
	return len(p), nil
}

// rndKey delivers the bytes of one number, so that the first draw is that number; further reads end the path.
type rndKey struct {
	d    *big.Int
	done bool
}

func (r *rndKey) Read(p []byte) (int, error) {
	if r.done {
		sym.Stop()
	}
	r.done = true
	r.d.FillBytes(p)
	return len(p), nil
}

// withRand installs the source for f.
func withRand(r io.Reader, f func()) {
	old := rand.Reader
	rand.Reader = r
	defer func() { rand.Reader = old }()
	f()
}

// lengths decides the byte lengths of the numbers on this path (before an oracle uses them).
func lengths(xs ...*big.Int) (n int) {
	for _, x := range xs {
		n += len(x.Bytes())
	}
	return
}

func fix32(x *big.Int) []byte { return x.FillBytes(make([]byte, 32)) }

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

// keyPair is an arbitrary private key with its public key.
func keyPair(name string, c sm2.P256V1Curve) (*sm2.PrivateKey, *sm2.PublicKey) {
	d := sym.BigIn(name, one, new(big.Int).Sub(c.N, big.NewInt(2)))
	return &sm2.PrivateKey{D: d, Curve: c}, pubOf(d, c)
}

func pubOf(d *big.Int, c sm2.P256V1Curve) *sm2.PublicKey {
	x, y := c.ScalarBaseMult(d.Bytes())
	return &sm2.PublicKey{X: x, Y: y, Curve: c}
}

// userID is one of the id shapes; def says that the standard default applies.
func userID(sizes ...int) (id []byte) {
	k := sym.Choose("id", len(sizes))
	if sizes[k] < 0 {
		return nil
	}
	return sym.Bytes("uid", sizes[k])
}

// specZ is Z of GM/T 0003.2.
func specZ(c sm2.P256V1Curve, x, y *big.Int, id []byte) []byte {
	if id == nil {
		id = []byte("1234567812345678")
	}
	n := len(id) * 8
	return sym.Hash(cat([]byte{byte(n >> 8), byte(n)}, id, fix32(c.A), fix32(c.B), fix32(c.Gx), fix32(c.Gy), fix32(x), fix32(y)))
}

func specE(c sm2.P256V1Curve, x, y *big.Int, id, msg []byte) *big.Int {
	return new(big.Int).SetBytes(sym.Hash(cat(specZ(c, x, y, id), msg)))
}

// specVerify is the verification algorithm of GM/T 0003.2.
func specVerify(c sm2.P256V1Curve, x, y, e, r, s *big.Int) bool {
	if r.Sign() <= 0 || r.Cmp(c.N) >= 0 || s.Sign() <= 0 || s.Cmp(c.N) >= 0 {
		return false
	}
	t := new(big.Int).Add(r, s)
	t.Mod(t, c.N)
	if t.Sign() == 0 {
		return false
	}
	x1, y1 := c.ScalarBaseMult(s.Bytes())
	x2, y2 := c.ScalarMult(x, y, t.Bytes())
	px, py := c.Add(x1, y1, x2, y2)
	if px.Sign() == 0 && py.Sign() == 0 {
		return false
	}
	v := new(big.Int).Add(e, px)
	v.Mod(v, c.N)
	return v.Cmp(r) == 0
}

// ---- C09: helpers ----

var bigConsts = []string{"0", "1", "-1", "2", "-7", "255", "256", "ffffffffffffffff", "-10000000000000000",
	"FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123", "FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF"}

func bigConst(k int) *big.Int { v, _ := new(big.Int).SetString(bigConsts[k], 16); return v }

// operand is arbitrary of up to 96 bits with either sign, arbitrary of 256 bits, or a constant.
func operand(name string, signed bool) *big.Int {
	switch k := sym.Choose(name+" kind", 4+len(bigConsts)); k {
	case 0:
		return sym.Big(name, 256)
	case 1:
		return sym.Big(name, 96)
	case 2:
		if !signed {
			sym.Stop()
		}
		return new(big.Int).Neg(sym.Big(name, 96))
	case 3:
		if !signed {
			sym.Stop()
		}
		return new(big.Int).Sub(sym.Big(name, 256), new(big.Int).Lsh(one, 255))
	default:
		v := bigConst(k - 4)
		if !signed && v.Sign() < 0 {
			sym.Stop()
		}
		return v
	}
}

func C09_Arithmetic() {
	sym.Bound("C09_Arithmetic: Add, Sub and Mul for all operands of up to 256 bits of either sign, distinct or the same object; And, Lsh, SetBit for non-negative operands (shift and bit positions 0..8, 63..65, 127, 255..257) and for negative constants; Mod for operands of either sign and moduli from a list of constants (SM2 n and p, small, composite, negative); ModInverse for all invertible operands modulo SM2 n and p and for constants")
	op := sym.Choose("op", 8)
	signed := op <= 2 || op == 3
	x := operand("x", signed)
	y := x
	if op <= 2 || op == 5 {
		if sym.Choose("same object", 2) == 0 {
			y = operand("y", signed)
		}
	}
	shifts := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 63, 64, 65, 127, 255, 256, 257}
	k := 0
	if op == 6 || op == 7 {
		k = shifts[sym.Choose("shift", len(shifts))]
	}
	var bit uint
	if op == 7 {
		bit = uint(sym.Choose("bit", 2))
	}
	if op == 3 || op == 4 {
		ck := sym.Choose("modulus", len(bigConsts))
		y = bigConst(ck)
		if y.Sign() == 0 || op == 4 && ck < 9 {
			sym.Stop()
		}
	}
	x0, y0 := new(big.Int).Set(x), new(big.Int).Set(y)
	sym.Freeze("operands", x, y)
	var z *big.Int
	want := new(big.Int)
	switch op {
	case 0:
		z = util.Add(x, y)
		want.Add(x0, y0)
	case 1:
		z = util.Sub(x, y)
		want.Sub(x0, y0)
	case 2:
		z = util.Mul(x, y)
		want.Mul(x0, y0)
	case 3:
		z = util.Mod(x, y)
		want.Mod(x0, y0)
	case 4:
		if want.ModInverse(x0, y0) == nil {
			sym.Stop()
		}
		z = util.ModInverse(x, y)
	case 5:
		z = util.And(x, y)
		want.And(x0, y0)
	case 6:
		z = util.Lsh(x, uint(k))
		want.Lsh(x0, uint(k))
	case 7:
		z = util.SetBit(x, k, bit)
		want.SetBit(x0, k, bit)
	}
	sym.Assert(z != x && z != y, "the result is a new number")
	sym.Assert(sym.BigEq(z, want), "the result is exact")
	z.Add(z, one)
	z.Neg(z)
	sym.Unfreeze()
	sym.Assert(sym.And(sym.BigEq(x, x0), sym.BigEq(y, y0)), "operands keep their values")
}

func C09_Infinity() {
	sym.Bound("C09_Infinity: all coordinate pairs of up to 256 bits")
	x, y := operand("x", true), operand("y", true)
	want := sym.And(sym.BigEq(x, new(big.Int)), sym.BigEq(y, new(big.Int)))
	sym.Freeze("operands", x, y)
	got := util.IsEcPointInfinity(x, y)
	sym.Unfreeze()
	sym.Assert(got == want, "infinity is exactly (0,0)")
}

// ---- C10-C13: signatures ----

// drawLimit bounds the number of nonce draws.
func drawLimit() int {
	if sym.Thorough() {
		return 3
	}
	return 2
}

const sigBound = "all private keys in [1,n-2], all nonces, all message and id contents; message lengths 0, 1, 33; ids: none, empty, 1, 16 bytes; at most 2 (thorough 3) reads of the random source for messages of one byte with the default id, one less for the other shapes; coordinates and keys with at most 1 (thorough 2) leading zero bytes in the hashed fields"

func signSetup() (c sm2.P256V1Curve, id, msg []byte, draws int) {
	sym.StubSM3()
	c = curve()
	id = userID(-1, 0, 1, 16)
	msg = sym.Bytes("msg", []int{0, 1, 33}[sym.Choose("len", 3)])
	draws = drawLimit()
	if id != nil || len(msg) != 1 {
		draws--
	}
	return
}

func C10_SignVerify() {
	sym.Bound("C10_SignVerify: " + sigBound)
	c, id, msg, draws := signSetup()
	priv, pub := keyPair("d", c)
	r := &rnd{failAt: -1, max: draws}
	var sr, ss *big.Int
	var err error
	if !sym.NoPanic("SignToRS", func() { withRand(r, func() { sr, ss, err = sm2.SignToRS(priv, id, msg) }) }) {
		return
	}
	sym.Assert(err == nil, "signing succeeds")
	if err != nil {
		return
	}
	sym.Reach("signed")
	ok := false
	sym.NoPanic("VerifyByRS", func() { ok = sm2.VerifyByRS(pub, id, msg, sr, ss) })
	sym.Assert(ok, "the signature verifies")
}

// C10_SignVerifyDER: the same through the DER forms, with short r and s.
func C10_SignVerifyDER() {
	sym.Bound("C10_SignVerifyDER: all private keys and nonces, messages of one byte, default id; one draw; r and s with at most 1 (thorough 2) leading zero bytes")
	sym.StubSM3()
	c := curve()
	msg := sym.Bytes("msg", 1)
	priv, pub := keyPair("d", c)
	r := &rnd{failAt: -1, max: 1}
	var sig []byte
	var err error
	if !sym.NoPanic("Sign", func() { withRand(r, func() { sig, err = sm2.Sign(priv, nil, msg) }) }) {
		return
	}
	sym.Assert(err == nil, "signing succeeds")
	if err != nil {
		return
	}
	sym.Reach("signed")
	ok := false
	sym.NoPanic("Verify", func() { ok = sm2.Verify(pub, nil, msg, sig) })
	sym.Assert(ok, "the signature verifies")
}

func C11_Equations() {
	sym.Bound("C11_Equations: " + sigBound + "; a failing read at any position")
	c, id, msg, draws := signSetup()
	priv, pub := keyPair("d", c)
	n := c.N
	r := &rnd{failAt: sym.Choose("failing read", draws+1) - 1, max: draws}
	var sr, ss *big.Int
	var err error
	if !sym.NoPanic("SignToRS", func() { withRand(r, func() { sr, ss, err = sm2.SignToRS(priv, id, msg) }) }) {
		return
	}
	if err != nil {
		sym.Assert(r.failed, "an error only when the random source fails")
		sym.Assert(sr == nil && ss == nil, "no signature besides an error")
		return
	}
	sym.Assert(!r.failed, "an error of the random source is returned")
	sym.Assert(len(r.draws) > 0, "the nonce is drawn from the random source")
	if r.failed || len(r.draws) == 0 {
		return
	}
	e := specE(c, pub.X, pub.Y, id, msg)
	sym.Assert(sr.Sign() > 0 && sr.Cmp(n) < 0, "r is in [1,n-1]")
	sym.Assert(ss.Sign() > 0 && ss.Cmp(n) < 0, "s is in [1,n-1]")
	// the only nonce that fits s: k = s(1+d) + r d
	k := new(big.Int).Add(ss, new(big.Int).Mul(new(big.Int).Add(sr, ss), priv.D))
	k.Mod(k, n)
	sym.Assert(k.Sign() != 0, "the nonce is not zero")
	if k.Sign() == 0 {
		return
	}
	x1, _ := c.ScalarBaseMult(k.Bytes())
	x1 = new(big.Int).Add(e, x1)
	x1.Mod(x1, n)
	sym.Assert(x1.Cmp(sr) == 0, "r = e + x1 and s = (k - r d)/(1 + d) for one nonce k")
	rk := new(big.Int).Add(sr, k)
	sym.Assert(rk.Cmp(n) != 0, "r + k is not n")
	// the nonce is the last value drawn, and earlier in-range values were discarded for a reason
	for i, b := range r.draws {
		if len(b) != (n.BitLen()+7)/8 || sym.CurveID() != 0 {
			return // drawn in another way: not compared
		}
		v := new(big.Int).SetBytes(b)
		last := i == len(r.draws)-1
		if last {
			sym.Assert(v.Cmp(k) == 0, "the nonce is the value drawn last")
		}
	}
}

// A weak nonce (r = 0, r + k = n or s = 0) is never used, a good one is never discarded.
func C11_WeakNonce() {
	sym.Bound("C11_WeakNonce: first nonce arbitrary in [1,n-1] and either weak or not; otherwise as C11_Equations, message length 1, default id")
	sym.StubSM3()
	c := curve()
	msg := sym.Bytes("msg", 1)
	priv, pub := keyPair("d", c)
	n := c.N
	r := &rnd{failAt: -1, max: 2}
	var sr, ss *big.Int
	var err error
	if !sym.NoPanic("SignToRS", func() { withRand(r, func() { sr, ss, err = sm2.SignToRS(priv, nil, msg) }) }) {
		return
	}
	sym.Assert(err == nil, "signing succeeds")
	if err != nil || len(r.draws) == 0 || len(r.draws[0]) != (n.BitLen()+7)/8 || n.BitLen()%8 != 0 {
		return
	}
	k := new(big.Int).SetBytes(r.draws[0])
	weak := true
	if k.Sign() > 0 && k.Cmp(n) < 0 {
		e := specE(c, pub.X, pub.Y, nil, msg)
		x1, _ := c.ScalarBaseMult(k.Bytes())
		wr := new(big.Int).Add(e, x1)
		wr.Mod(wr, n)
		rk := new(big.Int).Add(wr, k)
		ws := new(big.Int).Sub(k, new(big.Int).Mul(wr, priv.D))
		ws.Mod(ws, n)
		if wr.Sign() != 0 && rk.Cmp(n) != 0 && ws.Sign() != 0 {
			weak = false
		}
	}
	if weak {
		sym.Reach("weak")
		sym.Assert(len(r.draws) == 2, "a weak nonce is discarded")
	} else {
		sym.Assert(len(r.draws) == 1, "a good nonce is used")
		if len(r.draws) != 1 {
			return
		}
	}
	sym.Assert(sr.Sign() > 0 && ss.Sign() > 0 && sr.Cmp(n) < 0 && ss.Cmp(n) < 0, "r and s are in [1,n-1]")
}

// Keys outside [1,n-2] are refused.
func C11_BadKey() {
	sym.Bound("C11_BadKey: all private keys below 2^264 outside [1,n-2] and all negative ones")
	sym.StubSM3()
	c := curve()
	d := sym.Big("d", 264)
	if sym.Choose("sign", 2) == 1 {
		d = new(big.Int).Neg(d)
	}
	good := d.Sign() > 0 && d.Cmp(new(big.Int).Sub(c.N, one)) < 0
	priv := &sm2.PrivateKey{D: d, Curve: c}
	if good {
		sym.Stop()
	}
	r := &rnd{failAt: -1, max: 1}
	var sr, ss *big.Int
	var err error
	if !sym.NoPanic("SignToRS", func() { withRand(r, func() { sr, ss, err = sm2.SignToRS(priv, nil, []byte{1}) }) }) {
		return
	}
	sym.Assert(err != nil && sr == nil && ss == nil, "a private key outside [1,n-2] is refused")
}

// sigNumber is arbitrary: any sign, in and out of range.
func sigNumber(name string, c sm2.P256V1Curve) *big.Int {
	switch sym.Choose(name+" kind", 3) {
	case 0:
		return sym.BigIn(name, new(big.Int), new(big.Int).Lsh(c.N, 1))
	case 1:
		return new(big.Int).Neg(sym.Big(name, 300))
	}
	return new(big.Int).Add(c.N, sym.Big(name, 300))
}

func C12_VerifyExact() {
	sym.Bound("C12_VerifyExact: all pairs (r,s) with -2^300 < r,s < n+2^300, all public keys [d]G with d in [1,n-1], all message contents of lengths 0, 1, 33 and ids none, empty, 1, 16 bytes; coordinates with at most 1 (thorough 2) leading zero bytes")
	c, id, msg, _ := signSetup()
	d := sym.BigIn("d", one, new(big.Int).Sub(c.N, one))
	pub := pubOf(d, c)
	r, s := sigNumber("r", c), sigNumber("s", c)
	got := false
	if !sym.NoPanic("VerifyByRS", func() { got = sm2.VerifyByRS(pub, id, msg, r, s) }) {
		return
	}
	want := specVerify(c, pub.X, pub.Y, specE(c, pub.X, pub.Y, id, msg), r, s)
	sym.Assert(got == want, "verification accepts exactly the valid signatures")
}

// Pairs chosen so that each condition of verification is the deciding one.
func C12_VerifyCorners() {
	sym.Bound("C12_VerifyCorners: (r,s) from a genuine signature with any nonce, with r or s replaced by a congruent value (-n, +n), by n - r, 0 or the other one; s chosen so that [s]G + [t]P is the point at infinity; t = 0")
	sym.StubSM3()
	c := curve()
	n := c.N
	msg := sym.Bytes("msg", 1)
	priv, pub := keyPair("d", c)
	d := priv.D
	lengths(pub.X, pub.Y)
	e := specE(c, pub.X, pub.Y, nil, msg)
	k := sym.BigIn("k", one, new(big.Int).Sub(n, one))
	x1, _ := c.ScalarBaseMult(k.Bytes())
	r := new(big.Int).Add(e, x1)
	r.Mod(r, n)
	inv := new(big.Int).ModInverse(new(big.Int).Add(d, one), n)
	s := new(big.Int).Sub(k, new(big.Int).Mul(r, d))
	s.Mul(s, inv)
	s.Mod(s, n)
	switch sym.Choose("corner", 10) {
	case 0:
	case 1:
		r = new(big.Int).Add(r, n)
	case 2:
		s = new(big.Int).Add(s, n)
	case 3:
		r = new(big.Int).Sub(r, n)
	case 4:
		s = new(big.Int).Sub(s, n)
	case 5: // t = 0
		s = new(big.Int).Sub(n, r)
	case 6: // [s]G + [t]P = O: s + (r+s) d = 0
		s = new(big.Int).Mul(new(big.Int).Mul(r, d), inv)
		s.Neg(s)
		s.Mod(s, n)
	case 7: // as 6 with r = e mod n, the value a missing test for infinity would accept
		r = new(big.Int).Mod(e, n)
		s = new(big.Int).Mul(new(big.Int).Mul(r, d), inv)
		s.Neg(s)
		s.Mod(s, n)
	case 8:
		r, s = s, r
	case 9:
		r, s = new(big.Int), new(big.Int).Set(s)
	}
	got := false
	if !sym.NoPanic("VerifyByRS", func() { got = sm2.VerifyByRS(pub, nil, msg, r, s) }) {
		return
	}
	sym.Assert(got == specVerify(c, pub.X, pub.Y, e, r, s), "verification accepts exactly the valid signatures")
}

// The digest is checked through a public key and signature that fit the specified digest only.
func C13_Digest() {
	sym.Bound("C13_Digest: ids none, 0, 1, 2, 15..17, 31..33, 40 and 8191 bytes with a message of 33 bytes, and messages of 0, 1, 31..33, 64 bytes with the default id (thorough: ids none, 0..64 and 8191 bytes with messages of 0..70 bytes), all contents, all keys; coordinates with at most 1 (thorough 2) leading zero bytes")
	sym.StubSM3()
	c := curve()
	ids := []int{-1, 0, 1, 2, 15, 16, 17, 31, 32, 33, 40, 8191}
	ml := []int{0, 1, 31, 32, 33, 64}
	var il, mlen int
	if sym.Thorough() {
		il = sym.Choose("id length", 67) - 1
		if il == 65 {
			il = 8191
		}
		mlen = sym.Choose("len", 71)
	} else {
		k := sym.Choose("shape", len(ids)+len(ml))
		il, mlen = -1, 33
		if k < len(ids) {
			il = ids[k]
		} else {
			mlen = ml[k-len(ids)]
		}
	}
	var id []byte
	if il >= 0 {
		id = sym.Bytes("uid", il)
	}
	msg := sym.Bytes("msg", mlen)
	priv, pub := keyPair("d", c)
	n := c.N
	k0 := sym.BigIn("k", one, new(big.Int).Sub(n, one))
	var sr, ss *big.Int
	var err error
	if !sym.NoPanic("SignToRS", func() {
		withRand(&rndKey{d: k0}, func() { sr, ss, err = sm2.SignToRS(priv, id, msg) })
	}) {
		return
	}
	sym.Assert(err == nil, "signing succeeds")
	if err != nil {
		return
	}
	// e = r - x1 with the nonce that fits s
	k := new(big.Int).Add(ss, new(big.Int).Mul(new(big.Int).Add(sr, ss), priv.D))
	k.Mod(k, n)
	if k.Sign() == 0 {
		return
	}
	x1, _ := c.ScalarBaseMult(k.Bytes())
	e := new(big.Int).Sub(sr, x1)
	e.Mod(e, n)
	want := specE(c, pub.X, pub.Y, id, msg)
	want.Mod(want, n)
	sym.Assert(e.Cmp(want) == 0, "the signed digest is SM3(Z || M)")
	ok := false
	sym.NoPanic("VerifyByRS", func() { ok = sm2.VerifyByRS(pub, id, msg, sr, ss) })
	sym.Assert(ok, "the verified digest is SM3(Z || M)")
}

// C13_Twice: two signatures in a row; the digest depends on nothing but the
// id, the key and the message of the call.
func C13_Twice() {
	sym.Bound("C13_Twice: a signature followed by another: with the same key, the key n-d whose public point has the same X coordinate, or (thorough) an arbitrary one; with the same, another or (thorough) no id (16 bytes); the same or another message of one byte; each verified; coordinates with at most 1 (thorough 2) leading zero bytes")
	sym.StubSM3()
	c := curve()
	n := c.N
	more := 0
	if sym.Thorough() {
		more = 1
	}
	kind := sym.Choose("second key", 2+more)
	ids := [][]byte{sym.Bytes("uid", 16), nil}
	switch sym.Choose("second id", 2+more) {
	case 0:
		ids[1] = append([]byte(nil), ids[0]...)
	case 1:
		ids[1] = sym.Bytes("uid2", 16)
	}
	msgs := [][]byte{sym.Bytes("msg", 1), nil}
	if kind != 0 || sym.Choose("second message", 2) == 1 {
		msgs[1] = msgs[0]
	} else {
		msgs[1] = sym.Bytes("msg2", 1)
	}
	priv, pub := keyPair("d", c)
	for i := 0; i < 2; i++ {
		if i == 1 {
			switch kind {
			case 1:
				d := new(big.Int).Sub(n, priv.D)
				if d.Cmp(new(big.Int).Sub(n, big.NewInt(2))) > 0 {
					return
				}
				priv, pub = &sm2.PrivateKey{D: d, Curve: c}, pubOf(d, c)
			case 2:
				priv, pub = keyPair("d2", c)
			}
		}
		k0 := sym.BigIn([]string{"k", "k2"}[i], one, new(big.Int).Sub(n, one))
		var sr, ss *big.Int
		var err error
		if !sym.NoPanic("SignToRS", func() {
			withRand(&rndKey{d: k0}, func() { sr, ss, err = sm2.SignToRS(priv, ids[i], msgs[i]) })
		}) {
			return
		}
		sym.Assert(err == nil, "signing succeeds")
		if err != nil {
			return
		}
		k := new(big.Int).Add(ss, new(big.Int).Mul(new(big.Int).Add(sr, ss), priv.D))
		k.Mod(k, n)
		if k.Sign() == 0 {
			return
		}
		x1, _ := c.ScalarBaseMult(k.Bytes())
		e := new(big.Int).Sub(sr, x1)
		e.Mod(e, n)
		want := specE(c, pub.X, pub.Y, ids[i], msgs[i])
		want.Mod(want, n)
		sym.Assert(e.Cmp(want) == 0, "the signed digest is SM3(Z || M) of this call")
		ok := false
		sym.NoPanic("VerifyByRS", func() { ok = sm2.VerifyByRS(pub, ids[i], msgs[i], sr, ss) })
		sym.Assert(ok, "the verified digest is SM3(Z || M) of this call")
	}
}

// An id whose bit length does not fit in 16 bits is refused by signing and verification.
func C13_LongID() {
	sym.Bound("C13_LongID: id lengths 8191..8200, 16383, 16384, 16385, thorough 65536 (contents zero)")
	sym.StubSM3()
	c := curve()
	ls := []int{8191, 8192, 8193, 8194, 8200, 16383, 16384, 16385}
	if sym.Thorough() {
		ls = append(ls, 65536)
	}
	l := ls[sym.Choose("id length", len(ls))]
	id := make([]byte, l)
	d := big.NewInt(5)
	priv, pub := &sm2.PrivateKey{D: d, Curve: c}, pubOf(d, c)
	r := &rnd{failAt: -1, max: 1}
	var sr, ss *big.Int
	var err error
	if !sym.NoPanic("SignToRS", func() { withRand(r, func() { sr, ss, err = sm2.SignToRS(priv, id, []byte{1}) }) }) {
		return
	}
	sym.Assert((err == nil) == (l <= 8191), "signing refuses exactly the ids that do not fit")
	if err != nil {
		sym.Assert(sr == nil && ss == nil, "no signature besides an error")
		// nothing verifies under an id that does not fit: neither do signatures for the truncated length
		k := big.NewInt(7)
		x1, _ := c.ScalarBaseMult(k.Bytes())
		m := l * 8
		z := sym.Hash(cat([]byte{byte(m >> 8), byte(m)}, id, fix32(c.A), fix32(c.B), fix32(c.Gx), fix32(c.Gy), fix32(pub.X), fix32(pub.Y)))
		e := new(big.Int).SetBytes(sym.Hash(cat(z, []byte{1})))
		sr = new(big.Int).Add(e, x1)
		sr.Mod(sr, c.N)
		ss = new(big.Int).Sub(k, new(big.Int).Mul(sr, d))
		ss.Mul(ss, new(big.Int).ModInverse(big.NewInt(6), c.N))
		ss.Mod(ss, c.N)
		ok := true
		sym.NoPanic("VerifyByRS", func() { ok = sm2.VerifyByRS(pub, id, []byte{1}, sr, ss) })
		sym.Assert(!ok, "verification refuses ids that do not fit")
	}
}
