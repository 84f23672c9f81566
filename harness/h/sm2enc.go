package h

import (
	"math/big"

	"gmharness/sym"

	"github.com/ZZMarquis/gm/sm2"
)

// ---- C14-C16: encryption ----

var orders = []sm2.Sm2CipherTextType{sm2.C1C2C3, sm2.C1C3C2}

// specKDF is the key stream of GM/T 0003 for the shared point.
func specKDF(n int, parts ...[]byte) []byte {
	var t []byte
	for ct := 1; len(t) < n; ct++ {
		t = append(t, sym.Hash(cat(cat(parts...), []byte{byte(ct >> 24), byte(ct >> 16), byte(ct >> 8), byte(ct)}))...)
	}
	return t[:n]
}

func xorBytes(a, b []byte) []byte {
	r := make([]byte, len(a))
	for i := range a {
		r[i] = a[i] ^ b[i]
	}
	return r
}

func allZero(b []byte) bool {
	v := byte(0)
	for _, x := range b {
		v |= x
	}
	return v == 0
}

func join(order sm2.Sm2CipherTextType, c1, c2, c3 []byte) []byte {
	if order == sm2.C1C2C3 {
		return cat(c1, c2, c3)
	}
	return cat(c1, c3, c2)
}

func split(order sm2.Sm2CipherTextType, ct []byte) (c1, c2, c3 []byte) {
	if order == sm2.C1C2C3 {
		return ct[:65], ct[65 : len(ct)-32], ct[len(ct)-32:]
	}
	return ct[:65], ct[97:], ct[65:97]
}

func encLens() []int {
	if sym.Thorough() {
		var l []int
		for i := 0; i <= 100; i++ {
			l = append(l, i)
		}
		return append(l, 128, 129, 160, 161)
	}
	return []int{0, 1, 2, 31, 32, 33, 64, 65, 97}
}

const encBound = "all private keys in [1,n-2], all nonces, all message contents; message lengths 0, 1, 2, 31..33, 64, 65, 97 (thorough 0..100, 128, 129, 160, 161), both orders; one read of the random source, 2 for messages of 1 and 33 bytes (thorough 3 for 1 byte); coordinates with at most 1 (thorough 2) leading zero bytes"

func encSetup() (c sm2.P256V1Curve, order sm2.Sm2CipherTextType, msg []byte, draws int) {
	sym.StubSM3()
	c = curve()
	order = orders[sym.Choose("order", 2)]
	ls := encLens()
	msg = sym.Bytes("msg", ls[sym.Choose("len", len(ls))])
	draws = 1
	if len(msg) == 1 || len(msg) == 33 {
		draws = 2
		if sym.Thorough() && len(msg) == 1 {
			draws = 3
		}
	}
	return
}

func C14_EncryptDecrypt() {
	sym.Bound("C14_EncryptDecrypt: " + encBound)
	c, order, msg, draws := encSetup()
	priv, pub := keyPair("d", c)
	r := &rnd{failAt: -1, max: draws}
	var ct, pt []byte
	var err error
	if !sym.NoPanic("Encrypt", func() { withRand(r, func() { ct, err = sm2.Encrypt(pub, msg, order) }) }) {
		return
	}
	sym.Assert(err == nil, "encryption succeeds")
	if err != nil {
		return
	}
	sym.Assert(len(r.draws) > 0, "the nonce is drawn from the random source")
	if !sym.NoPanic("Decrypt", func() { pt, err = sm2.Decrypt(priv, ct, order) }) {
		return
	}
	sym.Assert(err == nil, "decryption succeeds")
	if err != nil {
		return
	}
	sym.Assert(len(pt) == len(msg), "the plaintext has its length")
	sym.AssertEq(pt, msg, "decryption restores the plaintext")
}

func C15_Layout() {
	sym.Bound("C15_Layout: " + encBound + "; a failing read at any position")
	c, order, msg, draws := encSetup()
	priv, pub := keyPair("d", c)
	r := &rnd{failAt: sym.Choose("failing read", draws+1) - 1, max: draws}
	layout(c, order, msg, priv, pub, r)
}

// A long message: the block counter of the key stream exceeds one byte.
func C15_LongMessage() {
	sym.Bound("C15_LongMessage: a message of 8193 bytes (257 key stream blocks), contents zero except the first byte and 33 arbitrary bytes at the end, one nonce whose key stream does not start with a zero byte")
	sym.StubSM3()
	c := curve()
	order := orders[sym.Choose("order", 2)]
	msg := make([]byte, 8193)
	msg[0] = sym.Byte("m0")
	copy(msg[8193-33:], sym.Bytes("msg", 33))
	priv, pub := keyPair("d", c)
	first := sym.Bytes("k", 32)
	k := new(big.Int).SetBytes(first)
	if k.Sign() == 0 || k.Cmp(c.N) >= 0 {
		sym.Stop()
	}
	x2, y2 := c.ScalarMult(pub.X, pub.Y, k.Bytes())
	lengths(x2, y2)
	if specKDF(1, fix32(x2), fix32(y2))[0] == 0 {
		sym.Stop()
	}
	layout(c, order, msg, priv, pub, &rnd{failAt: -1, max: 1, first: first})
}

func layout(c sm2.P256V1Curve, order sm2.Sm2CipherTextType, msg []byte, priv *sm2.PrivateKey, pub *sm2.PublicKey, r *rnd) {
	var ct []byte
	var err error
	if !sym.NoPanic("Encrypt", func() { withRand(r, func() { ct, err = sm2.Encrypt(pub, msg, order) }) }) {
		return
	}
	if err != nil {
		sym.Assert(r.failed, "an error only when the random source fails")
		sym.Assert(len(ct) == 0, "no ciphertext besides an error")
		return
	}
	sym.Assert(!r.failed, "an error of the random source is returned")
	sym.Assert(len(r.draws) > 0, "the nonce is drawn from the random source")
	sym.Assert(len(ct) == 97+len(msg), "the ciphertext has 97 bytes more than the plaintext")
	if r.failed || len(r.draws) == 0 || len(ct) != 97+len(msg) {
		return
	}
	c1, c2, c3 := split(order, ct)
	sym.Assert(c1[0] == 4, "C1 starts with 04")
	x1, y1 := new(big.Int).SetBytes(c1[1:33]), new(big.Int).SetBytes(c1[33:])
	on := c.IsOnCurve(x1, y1)
	sym.Assert(on, "C1 is a point of the curve")
	if !on {
		return
	}
	x2, y2 := c.ScalarMult(x1, y1, priv.D.Bytes())
	lengths(x2, y2)
	t := specKDF(len(msg), fix32(x2), fix32(y2))
	sym.AssertEq(c2, xorBytes(msg, t), "C2 is M xor KDF(x2 || y2)")
	sym.AssertEq(c3, sym.Hash(cat(fix32(x2), msg, fix32(y2))), "C3 is SM3(x2 || M || y2)")
	if len(msg) > 0 {
		sym.Assert(!allZero(t), "a nonce whose key stream is zero is not used")
	}
	// C1 belongs to the last value drawn; earlier usable ones had a zero key stream
	n := c.N
	for i, b := range r.draws {
		if len(b) != 32 || sym.CurveID() != 0 {
			return // drawn in another way: not compared
		}
		k := new(big.Int).SetBytes(b)
		if i == len(r.draws)-1 {
			kx, ky := c.ScalarBaseMult(k.Bytes())
			sym.Assert(k.Sign() > 0 && k.Cmp(n) < 0, "the nonce is in [1,n-1]")
			sym.Assert(sym.And(sym.BigEq(kx, x1), sym.BigEq(ky, y1)), "C1 is [k]G for the nonce drawn last")
		} else if k.Sign() > 0 && k.Cmp(n) < 0 {
			kx, ky := c.ScalarMult(pub.X, pub.Y, k.Bytes())
			lengths(kx, ky)
			sym.Assert(len(msg) > 0 && allZero(specKDF(len(msg), fix32(kx), fix32(ky))), "only a nonce whose key stream is zero is discarded")
		}
	}
}

// An unknown order is refused by every function that takes one.
func C15_BadOrder() {
	sym.Bound("C15_BadOrder: all 32-bit order values other than the two defined ones, messages of 0 and 1 bytes")
	sym.StubSM3()
	c := curve()
	order := sm2.Sm2CipherTextType(int32(sym.Uint32("order")))
	if order == sm2.C1C2C3 || order == sm2.C1C3C2 {
		sym.Stop()
	}
	_, pub := keyPair("d", c)
	msg := sym.Bytes("msg", sym.Choose("len", 2))
	var ct []byte
	var err error
	if sym.NoPanic("Encrypt", func() { withRand(&rnd{failAt: -1, max: 1}, func() { ct, err = sm2.Encrypt(pub, msg, order) }) }) {
		sym.Assert(err != nil && len(ct) == 0, "an unknown order is refused by encryption")
	}
}

// Ciphertexts built around a point with a known logarithm, each part changed by an arbitrary difference.
func C16_Tampered() {
	sym.Bound("C16_Tampered: C1 = [k]G for all k in [1,n-1] with its prefix byte arbitrary or its y coordinate negated, incremented or its x coordinate increased by p (where it fits), C2 arbitrary, C3 the right hash xor an arbitrary difference, total length changed by -1, 0 or 1; plaintext lengths 0, 1, 32, 33 (thorough also 2, 31, 64, 65); both orders; all private keys in [1,n-2]; coordinates with at most 1 (thorough 2) leading zero bytes")
	sym.StubSM3()
	c := curve()
	order := orders[sym.Choose("order", 2)]
	ls := []int{0, 1, 32, 33}
	if sym.Thorough() {
		ls = append(ls, 2, 31, 64, 65)
	}
	n := ls[sym.Choose("len", len(ls))]
	priv, _ := keyPair("d", c)
	k := sym.BigIn("k", one, new(big.Int).Sub(c.N, one))
	x1, y1 := c.ScalarBaseMult(k.Bytes())
	x2, y2 := c.ScalarMult(x1, y1, priv.D.Bytes())
	lengths(x2, y2)
	c2 := sym.Bytes("c2", n)
	valid := true
	prefix := byte(4)
	pt := xorBytes(c2, specKDF(n, fix32(x2), fix32(y2)))
	delta := make([]byte, 32)
	ex, ey := x1, y1
	resize := 0
	switch sym.Choose("change", 7) {
	case 0:
	case 1:
		prefix = sym.Byte("prefix")
		valid = prefix == 4
	case 2: // the opposite point: another valid C1 with x2 unchanged and y2 negated, C3 does not fit
		ey = new(big.Int).Sub(c.P, y1)
		valid = false
	case 3:
		ey = new(big.Int).Add(y1, one)
		valid = false
	case 4:
		ex = new(big.Int).Add(x1, c.P)
		if ex.BitLen() > 256 {
			sym.Stop()
		}
		valid = false
	case 5:
		delta = sym.Bytes("delta", 32)
		valid = allZero(delta)
	case 6:
		resize = 2*sym.Choose("resize", 2) - 1
		valid = false
	}
	c3 := xorBytes(sym.Hash(cat(fix32(x2), pt, fix32(y2))), delta)
	ct := join(order, cat([]byte{prefix}, fix32(ex), fix32(ey)), c2, c3)
	if resize < 0 {
		ct = ct[:len(ct)-1]
	} else if resize > 0 {
		ct = append(ct, sym.Byte("extra"))
	}
	var got []byte
	var err error
	if !sym.NoPanic("Decrypt", func() { got, err = sm2.Decrypt(priv, ct, order) }) {
		return
	}
	if resize != 0 || ey != y1 || ex != x1 { // with abstract hashes a changed ciphertext may still be authentic
		decryptSpec(c, priv, order, ct, got, err)
		return
	}
	if err != nil {
		sym.Assert(!valid, "an authentic ciphertext is decrypted")
		sym.Assert(len(got) == 0, "no plaintext besides an error")
		return
	}
	sym.Assert(valid, "a changed ciphertext is refused")
	sym.Assert(len(got) == n, "the plaintext has its length")
	sym.AssertEq(got, pt, "the plaintext is C2 xor KDF(x2 || y2)")
}

// decryptSpec compares a result of Decrypt with the rules of the standard.
func decryptSpec(c sm2.P256V1Curve, priv *sm2.PrivateKey, order sm2.Sm2CipherTextType, ct, got []byte, err error) {
	if err != nil {
		sym.Assert(len(got) == 0, "no plaintext besides an error")
	}
	var pt []byte
	ok := len(ct) >= 97
	if ok {
		c1, c2, c3 := split(order, ct)
		x, y := new(big.Int).SetBytes(c1[1:33]), new(big.Int).SetBytes(c1[33:])
		ok = c1[0] == 4 && x.Cmp(c.P) < 0 && y.Cmp(c.P) < 0 && c.IsOnCurve(x, y)
		if ok {
			x2, y2 := c.ScalarMult(x, y, priv.D.Bytes())
			lengths(x2, y2)
			pt = xorBytes(c2, specKDF(len(c2), fix32(x2), fix32(y2)))
			ok = sym.BytesEq(c3, sym.Hash(cat(fix32(x2), pt, fix32(y2))))
		}
	}
	if !ok {
		sym.Assert(err != nil, "a ciphertext that is not authentic is refused")
		return
	}
	sym.Reach("authentic")
	sym.Assert(err == nil, "an authentic ciphertext is decrypted")
	if err == nil {
		sym.Assert(len(got) == len(pt), "the plaintext has its length")
		sym.AssertEq(got, pt, "the plaintext is C2 xor KDF(x2 || y2)")
	}
}

// Arbitrary bytes.
func C16_Arbitrary() {
	sym.Bound("C16_Arbitrary: all byte strings of lengths 0..2, 33, 64..66, 95..98, 128..130, 161 (thorough 0..170), both orders and an unknown order, all private keys in [1,n-2]")
	sym.StubSM3()
	c := curve()
	ls := []int{0, 1, 2, 33, 64, 65, 66, 95, 96, 97, 98, 128, 129, 130, 161}
	l := 0
	if sym.Thorough() {
		l = sym.Choose("len", 171)
	} else {
		l = ls[sym.Choose("len", len(ls))]
	}
	k := sym.Choose("order", 3)
	ct := sym.Bytes("ct", l)
	priv, _ := keyPair("d", c)
	var got []byte
	var err error
	if k == 2 {
		order := sm2.Sm2CipherTextType(int32(sym.Uint32("unknown order")))
		if order == sm2.C1C2C3 || order == sm2.C1C3C2 {
			sym.Stop()
		}
		if sym.NoPanic("Decrypt", func() { got, err = sm2.Decrypt(priv, ct, order) }) {
			sym.Assert(err != nil && len(got) == 0, "an unknown order is refused by decryption")
		}
		return
	}
	if !sym.NoPanic("Decrypt", func() { got, err = sm2.Decrypt(priv, ct, orders[k]) }) {
		return
	}
	decryptSpec(c, priv, orders[k], ct, got, err)
}
