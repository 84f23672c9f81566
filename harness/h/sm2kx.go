package h

import (
	"math/big"

	"gmharness/sym"

	"github.com/ZZMarquis/gm/sm2"
)

// ---- C21, C22: key exchange ----

// ephemeral is a key pair with a private key in [1,n-1].
func ephemeral(name string, c sm2.P256V1Curve) (*sm2.PrivateKey, *sm2.PublicKey) {
	d := sym.BigIn(name, one, new(big.Int).Sub(c.N, one))
	return &sm2.PrivateKey{D: d, Curve: c}, pubOf(d, c)
}

func kxBits() int {
	l := []int{128, 1, 256, 257, 520}
	if sym.Thorough() {
		l = append(l, 0, 7, 8, 9, 264, 512, 768, 8200)
	}
	return l[sym.Choose("key bits", len(l))]
}

const kxBound = "all static keys in [1,n-2], all ephemeral keys in [1,n-1], key sizes of 1, 128, 256, 257, 520 bits (thorough also 0, 7, 8, 9, 264, 512, 768, 8200), ids absent, empty, of 1, 2 or 16 bytes with all contents (six combinations for 128 bits); at most one of the five points involved has coordinates with leading zero bytes, at most 1 (thorough 2) each"

// shortOnly lets only one of the points have coordinates with leading zero bytes.
func shortOnly(ps ...*sm2.PublicKey) {
	fullWidth(sym.Choose("point with short coordinates", len(ps)), ps...)
}

func fullWidth(g int, ps ...*sm2.PublicKey) {
	if sym.CurveID() != 0 {
		return
	}
	for i, p := range ps {
		if i != g && (len(p.X.Bytes()) < 32 || len(p.Y.Bytes()) < 32) {
			sym.Stop()
		}
	}
}

func C21_Agreement() {
	sym.Bound("C21_Agreement: " + kxBound)
	sym.StubSM3()
	c := curve()
	bits := kxBits()
	var idA, idB []byte
	if bits == 128 {
		switch sym.Choose("ids", 6) {
		case 0:
			idA, idB = sym.Bytes("idA", 16), sym.Bytes("idB", 2)
		case 1:
		case 4:
			idB = sym.Bytes("idB", 2)
		case 5:
			idA = sym.Bytes("idA", 1)
		case 2:
			idA, idB = []byte{}, sym.Bytes("idB", 1)
		case 3:
			idA, idB = sym.Bytes("idA", 1), []byte{}
		}
	} else {
		idA, idB = sym.Bytes("idA", 16), sym.Bytes("idB", 2)
	}
	sa, pa := keyPair("dA", c)
	sb, pb := keyPair("dB", c)
	ea, ra := ephemeral("rA", c)
	eb, rb := ephemeral("rB", c)
	ux, uy := specU(c, sb, eb, rb, pa, ra)
	if ux.Sign() == 0 && uy.Sign() == 0 {
		sym.Stop() // covered by C22
	}
	shortOnly(&sm2.PublicKey{X: ux, Y: uy}, pa, pb, ra, rb)
	var resp, init *sm2.ExchangeResult
	var err error
	if !sym.NoPanic("responder", func() {
		resp, err = sm2.CalculateKeyWithConfirmation(false, bits, nil, sb, eb, idB, pa, ra, idA)
	}) {
		return
	}
	sym.Assert(err == nil, "the responder succeeds")
	if err != nil {
		return
	}
	sym.Assert(len(resp.Key) == (bits+7)/8, "the responder's key has the requested length")
	if !sym.NoPanic("initiator", func() {
		init, err = sm2.CalculateKeyWithConfirmation(true, bits, resp.S1, sa, ea, idA, pb, rb, idB)
	}) {
		return
	}
	sym.Assert(err == nil, "the initiator accepts the responder's confirmation")
	if err != nil {
		return
	}
	sym.Reach("agreed")
	sym.Assert(len(init.Key) == (bits+7)/8, "the initiator's key has the requested length")
	if len(init.Key) == len(resp.Key) {
		sym.AssertEq(init.Key, resp.Key, "both parties have the same key")
	}
	ok := false
	if sym.NoPanic("ResponderConfirm", func() { ok = sm2.ResponderConfirm(resp.S2, init.S2) }) {
		sym.Assert(ok && len(init.S2) == 32, "the responder accepts the initiator's confirmation")
	}
}

// specU is the shared point: [t](P + [x'(R)]R) with t = d + x'(own R) r.
func specU(c sm2.P256V1Curve, s, e *sm2.PrivateKey, own, pub, eph *sm2.PublicKey) (x, y *big.Int) {
	half := new(big.Int).Lsh(one, 127)
	bar := func(x *big.Int) *big.Int {
		v := new(big.Int).Mod(x, half)
		return v.Add(v, half)
	}
	t := new(big.Int).Mul(bar(own.X), e.D)
	t.Add(t, s.D)
	t.Mod(t, c.N)
	qx, qy := c.ScalarMult(eph.X, eph.Y, bar(eph.X).Bytes())
	vx, vy := c.Add(pub.X, pub.Y, qx, qy)
	return c.ScalarMult(vx, vy, t.Bytes())
}

// kxSpec is the whole computation for one side.
type kxSpec struct {
	inf         bool
	key, s1, s2 []byte
}

func specKx(initiator bool, c sm2.P256V1Curve, bits int, s, e *sm2.PrivateKey, selfID []byte, pub, eph *sm2.PublicKey, otherID []byte) (k kxSpec) {
	selfPub, own := pubOf(s.D, c), pubOf(e.D, c)
	ux, uy := specU(c, s, e, own, pub, eph)
	if ux.Sign() == 0 && uy.Sign() == 0 {
		k.inf = true
		return
	}
	shortOnly(&sm2.PublicKey{X: ux, Y: uy}, selfPub, own, pub, eph)
	lengths(ux, uy)
	if selfID == nil {
		selfID = []byte{}
	}
	if otherID == nil {
		otherID = []byte{}
	}
	za, zb := specZ(c, selfPub.X, selfPub.Y, selfID), specZ(c, pub.X, pub.Y, otherID)
	r1, r2 := own, eph
	if !initiator {
		za, zb = zb, za
		r1, r2 = eph, own
	}
	k.key = specKDF((bits+7)/8, fix32(ux), fix32(uy), za, zb)
	inner := sym.Hash(cat(fix32(ux), za, zb, fix32(r1.X), fix32(r1.Y), fix32(r2.X), fix32(r2.Y)))
	k.s1 = sym.Hash(cat([]byte{2}, fix32(uy), inner))
	k.s2 = sym.Hash(cat([]byte{3}, fix32(uy), inner))
	return
}

func kxSetup() (c sm2.P256V1Curve, bits int, idS, idO []byte, plain bool) {
	sym.StubSM3()
	c = curve()
	bits = kxBits()
	plain = true
	if bits == 128 {
		switch sym.Choose("ids", 6) {
		case 0:
			idS, idO = sym.Bytes("idS", 16), sym.Bytes("idO", 2)
		case 1:
			plain = false
		case 2:
			idS, idO, plain = []byte{}, sym.Bytes("idO", 1), false
		case 4:
			idS, plain = sym.Bytes("idS", 1), false
		case 5:
			idO, plain = sym.Bytes("idO", 2), false
		case 3:
			idS, idO, plain = sym.Bytes("idS", 1), []byte{}, false
		}
	} else {
		idS, idO, plain = sym.Bytes("idS", 16), sym.Bytes("idO", 2), false
	}
	return
}

func C22_Responder() {
	sym.Bound("C22_Responder: " + kxBound)
	c, bits, idS, idO, plain := kxSetup()
	s, _ := keyPair("d", c)
	_, pub := keyPair("dO", c)
	e, _ := ephemeral("r", c)
	_, eph := ephemeral("rO", c)
	var res *sm2.ExchangeResult
	var err error
	tag := []byte(nil)
	if plain && sym.Choose("confirmation given", 2) == 1 {
		tag = sym.Bytes("tag", 32)
	}
	want := specKx(false, c, bits, s, e, idS, pub, eph, idO)
	if !sym.NoPanic("responder", func() {
		res, err = sm2.CalculateKeyWithConfirmation(false, bits, tag, s, e, idS, pub, eph, idO)
	}) {
		return
	}
	if want.inf {
		sym.Reach("infinity")
		sym.Assert(err != nil && res == nil, "U at infinity is refused")
		return
	}
	sym.Assert(err == nil, "the responder succeeds")
	if err != nil {
		return
	}
	sym.Assert(len(res.Key) == len(want.key) && len(res.S1) == 32 && len(res.S2) == 32, "the results have their lengths")
	if len(res.Key) != len(want.key) || len(res.S1) != 32 || len(res.S2) != 32 {
		return
	}
	sym.AssertEq(res.Key, want.key, "the key is KDF(xU || yU || ZA || ZB)")
	sym.AssertEq(res.S1, want.s1, "S1 is SM3(02 || yU || ...)")
	sym.AssertEq(res.S2, want.s2, "S2 is SM3(03 || yU || ...)")
}

// The right confirmation, one with an arbitrary difference, of another length, or none.
func C22_Initiator() {
	sym.Bound("C22_Initiator: " + kxBound + "; the confirmation is S1 xor any 32-byte difference, S1 cut or extended by one byte, S2, absent or empty")
	c, bits, idS, idO, plain := kxSetup()
	s, _ := keyPair("d", c)
	_, pub := keyPair("dO", c)
	e, _ := ephemeral("r", c)
	_, eph := ephemeral("rO", c)
	want := specKx(true, c, bits, s, e, idS, pub, eph, idO)
	var tag []byte
	good := false
	if want.inf {
		tag = sym.Bytes("tag", 32)
	} else {
		k := 0
		if plain {
			k = sym.Choose("confirmation", 7)
		}
		switch k {
		case 0:
			tag, good = cat(want.s1), true
		case 1:
			d := sym.Bytes("difference", 32)
			tag, good = xorBytes(want.s1, d), allZero(d)
		case 2:
			tag = cat(want.s1)[:31]
		case 3:
			tag = cat(want.s1, sym.Bytes("extra", 1))
		case 4:
			tag = []byte{}
		case 5:
			tag = nil
		case 6:
			tag = sym.Bytes("one byte", 1)
		}
	}
	var res *sm2.ExchangeResult
	var err error
	if !sym.NoPanic("initiator", func() {
		res, err = sm2.CalculateKeyWithConfirmation(true, bits, tag, s, e, idS, pub, eph, idO)
	}) {
		return
	}
	if want.inf {
		sym.Assert(err != nil && res == nil, "U at infinity is refused")
		return
	}
	if err != nil {
		sym.Assert(!good, "the right confirmation is accepted")
		sym.Assert(res == nil, "no key besides an error")
		return
	}
	sym.Assert(good, "a missing or wrong confirmation is refused")
	sym.Assert(len(res.Key) == len(want.key) && len(res.S2) == 32, "the results have their lengths")
	if len(res.Key) != len(want.key) || len(res.S2) != 32 {
		return
	}
	sym.AssertEq(res.Key, want.key, "the key is KDF(xU || yU || ZA || ZB)")
	sym.AssertEq(res.S2, want.s2, "S2 is SM3(03 || yU || ...)")
}

// Coordinates that are no point of the curve.
func C22_OffCurve() {
	sym.Bound("C22_OffCurve: all coordinate pairs (each up to 256 bits) as the other party's static or ephemeral key, both roles")
	sym.StubSM3()
	c := curve()
	s, _ := keyPair("d", c)
	e, _ := ephemeral("r", c)
	_, pub := keyPair("dO", c)
	_, eph := ephemeral("rO", c)
	x, y := sym.Big("x", 256), sym.Big("y", 256)
	bad := &sm2.PublicKey{X: x, Y: y, Curve: c}
	if sym.Choose("which", 2) == 0 {
		pub = bad
	} else {
		eph = bad
	}
	initiator := sym.Choose("initiator", 2) == 1
	var tag []byte
	if initiator {
		tag = sym.Bytes("tag", 32)
	}
	if x.Cmp(c.P) < 0 && y.Cmp(c.P) < 0 && c.IsOnCurve(x, y) {
		sym.Stop()
	}
	var res *sm2.ExchangeResult
	var err error
	if sym.NoPanic("key exchange", func() {
		res, err = sm2.CalculateKeyWithConfirmation(initiator, 128, tag, s, e, nil, pub, eph, nil)
	}) {
		sym.Assert(err != nil && res == nil, "a key that is no point of the curve is refused")
	}
}

func C22_Confirm() {
	sym.Bound("C22_Confirm: all pairs of byte strings of lengths 0, 1, 31, 32, 33")
	ls := []int{32, 0, 1, 31, 33}
	a := sym.Bytes("a", ls[sym.Choose("len a", len(ls))])
	b := sym.Bytes("b", ls[sym.Choose("len b", len(ls))])
	got := false
	if sym.NoPanic("ResponderConfirm", func() { got = sm2.ResponderConfirm(a, b) }) {
		sym.Assert(got == sym.BytesEq(a, b), "the confirmation is accepted exactly when it equals S2")
	}
}

// An id whose bit length does not fit is refused by both roles.
func C22_LongID() {
	sym.Bound("C22_LongID: ids of 8191, 8192 and 16384 bytes on either side (contents zero except one byte); coordinates without leading zero bytes")
	sym.StubSM3()
	c := curve()
	n := []int{8191, 8192, 16384}[sym.Choose("id bytes", 3)]
	id := make([]byte, n)
	id[n-1] = sym.Byte("last")
	idS, idO := id, []byte{1}
	if sym.Choose("other", 2) == 1 {
		idS, idO = idO, idS
	}
	s, _ := keyPair("d", c)
	e, _ := ephemeral("r", c)
	_, pub := keyPair("dO", c)
	_, eph := ephemeral("rO", c)
	ux, uy := specU(c, s, e, pubOf(e.D, c), pub, eph)
	if ux.Sign() == 0 && uy.Sign() == 0 {
		sym.Stop()
	}
	fullWidth(-1, &sm2.PublicKey{X: ux, Y: uy}, pub, eph, pubOf(s.D, c), pubOf(e.D, c))
	var res *sm2.ExchangeResult
	var err error
	if !sym.NoPanic("responder", func() {
		res, err = sm2.CalculateKeyWithConfirmation(false, 128, nil, s, e, idS, pub, eph, idO)
	}) {
		return
	}
	if n > 8191 {
		sym.Assert(err != nil && res == nil, "an id whose bit length does not fit ENTL is refused")
		return
	}
	sym.Assert(err == nil, "the longest id is accepted")
}

// ---- C23: nothing but results is written ----

func C23_Pure() {
	sym.Bound("C23_Pure: one call of every operation with keys in range, messages of 0, 1 or 33 bytes, ids absent or of 16 bytes, all contents, both ciphertext orders, one nonce, key exchange with coordinates without leading zero bytes; encodings valid or arbitrary; every store to memory reachable from an argument or from a package variable is a violation, and results must not share memory with arguments or package variables")
	sym.StubSM3()
	c := curve()
	op := sym.Choose("operation", 18)
	var id []byte
	msg := []byte{}
	if op < 6 {
		id = userID(-1, 16)
		msg = sym.Bytes("msg", []int{1, 0, 33}[sym.Choose("len", 3)])
	}
	order := orders[0]
	if op == 4 || op == 5 || op == 8 || op == 9 {
		order = orders[sym.Choose("order", 2)]
	}
	s, pub := keyPair("d", c)
	var rs, ss *big.Int
	var in []byte
	var pub2, eph *sm2.PublicKey
	var e *sm2.PrivateKey
	switch op {
	case 1:
		rs, ss = sym.Big("r", 256), sym.Big("s", 256)
	case 3:
		in = derWrap(0x30, cat(derWrap(2, cat([]byte{0x55}, sym.Bytes("r", 31))), derWrap(2, cat([]byte{0x55}, sym.Bytes("s", 31)))))
	case 5:
		k := sym.BigIn("k", one, new(big.Int).Sub(c.N, one))
		x1, y1 := c.ScalarBaseMult(k.Bytes())
		x2, y2 := c.ScalarMult(x1, y1, s.D.Bytes())
		c2 := sym.Bytes("c2", len(msg))
		pt := xorBytes(c2, specKDF(len(c2), fix32(x2), fix32(y2)))
		in = join(order, cat([]byte{4}, fix32(x1), fix32(y1)), c2, sym.Hash(cat(fix32(x2), pt, fix32(y2))))
	case 6, 7:
		e, _ = ephemeral("r", c)
		_, pub2 = keyPair("dO", c)
		_, eph = ephemeral("rO", c)
		id, msg = sym.Bytes("idA", 16), sym.Bytes("idB", 3)
		in = sym.Bytes("tag", 32)
		ux, uy := specU(c, s, e, pubOf(e.D, c), pub2, eph)
		fullWidth(-1, &sm2.PublicKey{X: ux, Y: uy}, pub, pub2, eph, pubOf(e.D, c))
	case 8:
		in = cat([]byte{4}, []byte{0x55}, sym.Bytes("x", 31), []byte{0x56}, sym.Bytes("y", 31), sym.Bytes("rest", 35))
	case 9:
		x, y := cat([]byte{0x55}, sym.Bytes("x", 31)), cat([]byte{0x55}, sym.Bytes("y", 31))
		c2, c3 := sym.Bytes("c2", 3), sym.Bytes("c3", 32)
		if order == sm2.C1C3C2 {
			c2, c3 = c3, c2
		}
		in = derWrap(0x30, cat(derWrap(2, x), derWrap(2, y), derWrap(4, c2), derWrap(4, c3)))
	case 10:
		rs, ss = sym.Big("r", 256), sym.Big("s", 256)
	case 11:
		in = derWrap(0x30, cat(derWrap(2, cat([]byte{0x55}, sym.Bytes("r", 31))), derWrap(2, cat([]byte{0x55}, sym.Bytes("s", 31)))))
	case 12:
		in = sym.Bytes("raw", 64)
	case 13:
		in = sym.Bytes("raw", 32)
	}
	r := &rnd{failAt: -1, max: 1}
	var bs, bs2, bs3 []byte
	var res *sm2.ExchangeResult
	var op2 *sm2.PublicKey
	var os2 *sm2.PrivateKey
	var br, bsg *big.Int
	sym.Freeze("arguments", s, pub, id, msg, rs, ss, in, pub2, eph, e)
	sym.FreezeGlobals()
	call := func(f func()) { sym.NoPanic("operation", f) }
	switch op {
	case 0:
		call(func() { withRand(r, func() { br, bsg, _ = sm2.SignToRS(s, id, msg) }) })
	case 1:
		call(func() { sm2.VerifyByRS(pub, id, msg, rs, ss) })
	case 2:
		call(func() { withRand(r, func() { bs, _ = sm2.Sign(s, id, msg) }) })
	case 3:
		call(func() { sm2.Verify(pub, id, msg, in) })
	case 4:
		call(func() { withRand(r, func() { bs, _ = sm2.Encrypt(pub, msg, order) }) })
	case 5:
		call(func() { bs, _ = sm2.Decrypt(s, in, order) })
	case 6:
		call(func() { res, _ = sm2.CalculateKeyWithConfirmation(false, 264, nil, s, e, id, pub2, eph, msg) })
	case 7:
		call(func() { res, _ = sm2.CalculateKeyWithConfirmation(true, 264, in, s, e, id, pub2, eph, msg) })
	case 8:
		call(func() { bs, _ = sm2.MarshalCipher(in, order) })
	case 9:
		call(func() { bs, _ = sm2.UnmarshalCipher(in, order) })
	case 10:
		call(func() { bs, _ = sm2.MarshalSign(rs, ss) })
	case 11:
		call(func() { br, bsg, _ = sm2.UnmarshalSign(in) })
	case 12:
		call(func() { op2, _ = sm2.RawBytesToPublicKey(in) })
	case 13:
		call(func() { os2, _ = sm2.RawBytesToPrivateKey(in) })
	case 14:
		call(func() { op2 = sm2.CalculatePubKey(s) })
	case 15:
		call(func() { bs = pub.GetRawBytes(); bs2 = pub.GetUnCompressBytes(); bs3 = s.GetRawBytes() })
	case 16:
		call(func() { os2, op2, _ = sm2.GenerateKey(r) })
	case 17:
		call(func() { sm2.GetSm2P256V1() })
	}
	// results belong to the caller: changing them must not reach the arguments either
	sym.Reach("returned")
	for _, b := range [][]byte{bs, bs2, bs3} {
		for i := range b {
			b[i] ^= 1
		}
	}
	if res != nil {
		for _, b := range [][]byte{res.Key, res.S1, res.S2} {
			for i := range b {
				b[i] ^= 1
			}
		}
	}
	for _, v := range []*big.Int{br, bsg} {
		if v != nil {
			v.SetInt64(5)
		}
	}
	if op2 != nil {
		op2.X.SetInt64(1)
		op2.Y.SetInt64(1)
	}
	if os2 != nil {
		os2.D.SetInt64(1)
	}
	sym.Unfreeze()
}

// A second call gives the same result whatever ran in between.
func C23_Repeat() {
	sym.Bound("C23_Repeat: verification, decryption and key exchange repeated after a signature and an encryption with the same keys; all keys, nonces and contents, messages of 1 byte")
	sym.StubSM3()
	c := curve()
	s, pub := keyPair("d", c)
	msg := sym.Bytes("msg", 1)
	sr, ss := sym.BigIn("r", one, new(big.Int).Sub(c.N, one)), sym.BigIn("s", one, new(big.Int).Sub(c.N, one))
	first := sm2.VerifyByRS(pub, nil, msg, sr, ss)
	if sym.Choose("between", 2) == 0 {
		withRand(&rnd{failAt: -1, max: 1}, func() { sm2.SignToRS(s, []byte{7}, msg) })
	} else {
		withRand(&rnd{failAt: -1, max: 1}, func() { sm2.Encrypt(pub, msg, sm2.C1C3C2) })
	}
	again := sm2.VerifyByRS(pub, nil, msg, sr, ss)
	sym.Assert(first == again, "verification does not depend on what ran before")
}
