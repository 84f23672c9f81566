package h

import (
	"bytes"
	"math/big"

	"gmharness/sym"

	"github.com/ZZMarquis/gm/sm2"
)

// ---- C17-C20: codecs and keys ----

// derHeader reads one DER header with the given tag and returns contents and rest.
func derElem(in []byte, tag byte) (body, rest []byte, ok bool) {
	if len(in) < 2 || in[0] != tag {
		return nil, nil, false
	}
	n := int(in[1])
	off := 2
	if n >= 0x80 {
		k := n - 0x80
		if k < 1 || k > 3 || len(in) < 2+k || in[2] == 0 {
			return nil, nil, false
		}
		n = 0
		for _, b := range in[2 : 2+k] {
			n = n<<8 | int(b)
		}
		if n < 0x80 {
			return nil, nil, false
		}
		off += k
	}
	if n > len(in)-off {
		return nil, nil, false
	}
	n = sym.Concrete(n)
	return in[off : off+n], in[off+n:], true
}

// derInt reads a minimal INTEGER.
func derInt(in []byte) (body, rest []byte, ok bool) {
	body, rest, ok = derElem(in, 2)
	if !ok || len(body) == 0 {
		return nil, nil, false
	}
	if len(body) > 1 && (body[0] == 0 && body[1] < 0x80 || body[0] == 0xff && body[1] >= 0x80) {
		return nil, nil, false
	}
	return body, rest, true
}

func derLen(n int) []byte {
	switch {
	case n < 0x80:
		return []byte{byte(n)}
	case n < 0x100:
		return []byte{0x81, byte(n)}
	case n < 0x10000:
		return []byte{0x82, byte(n >> 8), byte(n)}
	}
	return []byte{0x83, byte(n >> 16), byte(n >> 8), byte(n)}
}

func derWrap(tag byte, body []byte) []byte { return cat([]byte{tag}, derLen(len(body)), body) }

// signed is the value of two's complement bytes.
func signed(b []byte) *big.Int {
	v := new(big.Int).SetBytes(b)
	if len(b) > 0 && b[0] >= 0x80 {
		v.Sub(v, new(big.Int).Lsh(one, uint(8*len(b))))
	}
	return v
}

// specCipher reads the DER form of a ciphertext and returns the raw form.
func specCipher(order sm2.Sm2CipherTextType, in []byte) ([]byte, bool) {
	seq, rest, ok := derElem(in, 0x30)
	if !ok || len(rest) != 0 {
		return nil, false
	}
	var xy [2][]byte
	for i := range xy {
		var b []byte
		if b, seq, ok = derInt(seq); !ok || b[0] >= 0x80 {
			return nil, false
		}
		if b[0] == 0 {
			b = b[1:]
		}
		if len(b) > 32 {
			return nil, false
		}
		xy[i] = cat(make([]byte, 32-len(b)), b)
	}
	a, seq, ok := derElem(seq, 4)
	if !ok {
		return nil, false
	}
	b, seq, ok := derElem(seq, 4)
	if !ok || len(seq) != 0 {
		return nil, false
	}
	c3 := b
	if order == sm2.C1C3C2 {
		c3 = a
	}
	if len(c3) != 32 {
		return nil, false
	}
	return cat([]byte{4}, xy[0], xy[1], a, b), true
}

func zeroed(b []byte, n int) []byte {
	for i := 0; i < n && i < len(b); i++ {
		b[i] = 0
	}
	return b
}

var c2Lens = []int{0, 1, 2, 20, 21, 22, 23, 32, 33, 127, 128, 255, 256}

// The round trip, and the DER bytes themselves.
func C17_RoundTrip() {
	sym.Bound("C17_RoundTrip: all coordinates (any number of leading zero bytes in each), C2 of 0..2, 20..23, 32, 33, 127, 128, 255, 256 bytes (thorough also 1000, 65500), all contents, both orders; the first byte is 04")
	order := orders[sym.Choose("order", 2)]
	ls := c2Lens
	if sym.Thorough() {
		ls = append(append([]int{}, ls...), 1000, 65500)
	}
	n := ls[sym.Choose("len", len(ls))]
	zx := sym.Choose("leading zeros of x", 33)
	zy := 0
	if zx < 3 || zx > 30 {
		zy = sym.Choose("leading zeros of y", 33)
	}
	if (zx > 3 || zy > 3) && n > 1 {
		sym.Stop()
	}
	x, y := zeroed(sym.Bytes("x", 32), zx), zeroed(sym.Bytes("y", 32), zy)
	if zx < 32 && x[zx] == 0 || zy < 32 && y[zy] == 0 {
		sym.Stop()
	}
	c2, c3 := sym.Bytes("c2", n), sym.Bytes("c3", 32)
	raw := join(order, cat([]byte{4}, x, y), c2, c3)
	keep := cat(raw)
	var der, back []byte
	var err error
	if !sym.NoPanic("MarshalCipher", func() { der, err = sm2.MarshalCipher(raw, order) }) {
		return
	}
	sym.Assert(err == nil, "a ciphertext is encoded")
	if err != nil {
		return
	}
	first, second := c2, c3
	if order == sm2.C1C3C2 {
		first, second = c3, c2
	}
	want := derWrap(0x30, cat(derWrap(2, minInt(x)), derWrap(2, minInt(y)), derWrap(4, first), derWrap(4, second)))
	sym.Assert(len(der) == len(want), "the DER form has its length")
	if len(der) == len(want) {
		sym.AssertEq(der, want, "the DER form is SEQUENCE {x, y, ...}")
	}
	if !sym.NoPanic("UnmarshalCipher", func() { back, err = sm2.UnmarshalCipher(der, order) }) {
		return
	}
	sym.Assert(err == nil, "the DER form is decoded")
	if err != nil {
		return
	}
	sym.Assert(len(back) == len(keep), "the raw form has its length")
	if len(back) == len(keep) {
		sym.AssertEq(back, keep, "the round trip restores the ciphertext")
	}
}

// minInt is the DER contents of the INTEGER with these big-endian bytes, whose leading zeros are concrete.
func minInt(b []byte) []byte {
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	if len(b) == 0 || b[0] >= 0x80 {
		return cat([]byte{0}, b)
	}
	return b
}

// Short input and unknown orders.
func C17_EncoderRefuses() {
	sym.Bound("C17_EncoderRefuses: all byte strings of lengths 0..99 in both orders, and any unknown order with lengths 0, 1, 96, 97, 98, 130")
	var raw, der []byte
	var err error
	k := sym.Choose("order", 3)
	if k == 2 {
		order := sm2.Sm2CipherTextType(int32(sym.Uint32("unknown order")))
		if order == sm2.C1C2C3 || order == sm2.C1C3C2 {
			sym.Stop()
		}
		raw = sym.Bytes("raw", []int{0, 1, 96, 97, 98, 130}[sym.Choose("len", 6)])
		if sym.NoPanic("MarshalCipher", func() { der, err = sm2.MarshalCipher(raw, order) }) {
			sym.Assert(err != nil && len(der) == 0, "an unknown order is refused by the encoder")
		}
		if sym.NoPanic("UnmarshalCipher", func() { der, err = sm2.UnmarshalCipher(raw, order) }) {
			sym.Assert(err != nil && len(der) == 0, "an unknown order is refused by the decoder")
		}
		return
	}
	raw = sym.Bytes("raw", sym.Choose("len", 97))
	if sym.NoPanic("MarshalCipher", func() { der, err = sm2.MarshalCipher(raw, orders[k]) }) {
		sym.Assert(err != nil && len(der) == 0, "short input is refused")
	}
}

func checkCipherDecoder(order sm2.Sm2CipherTextType, in []byte) {
	keep := cat(in)
	var out []byte
	var err error
	if !sym.NoPanic("UnmarshalCipher", func() { out, err = sm2.UnmarshalCipher(in, order) }) {
		return
	}
	want, ok := specCipher(order, keep)
	if !ok {
		sym.Assert(err != nil, "what is not the DER form of a ciphertext is refused")
		sym.Assert(err == nil || len(out) == 0, "no ciphertext besides an error")
		return
	}
	sym.Reach("valid")
	sym.Assert(err == nil, "the DER form of a ciphertext is decoded")
	if err != nil {
		return
	}
	sym.Assert(len(out) == len(want), "the decoded ciphertext has its length")
	if len(out) == len(want) {
		sym.AssertEq(out, want, "the decoded ciphertext is 04 || x || y || ... with 32-byte coordinates")
	}
}

func C17_DecoderShort() {
	sym.Bound("C17_DecoderShort: all byte strings of 0..5 bytes (thorough 0..7), both orders")
	max := 6
	if sym.Thorough() {
		max = 8
	}
	order := orders[sym.Choose("order", 2)]
	checkCipherDecoder(order, sym.Bytes("in", sym.Choose("len", max)))
}

// A DER skeleton whose integers have any length and contents, with one header byte arbitrary.
func C17_DecoderShapes() {
	sym.Bound("C17_DecoderShapes: SEQUENCE {INTEGER, INTEGER, OCTET STRING, OCTET STRING} with arbitrary contents, one integer of 0..2, 31..34 bytes beside a short one, or both of 32 or 33 bytes without leading zero bytes, octet strings of 0, 1, 31, 32, 33 bytes, or, with only the first byte of every element's contents arbitrary, one of: any one header byte (tag or length of any element) replaced by any value, 1 or 2 arbitrary bytes appended inside or outside, the last byte dropped, a length in a longer form than needed; both orders")
	order := orders[sym.Choose("order", 2)]
	il := []int{32, 33, 0, 1, 2, 31, 34}
	ol := []int{32, 0, 1, 31, 33}
	n := [4]int{1, 2, 1, 32} // short integers keep the number of combinations small
	if order == sm2.C1C3C2 {
		n[2], n[3] = 32, 1
	}
	change := sym.Choose("change", 6)
	both := false
	if change == 0 {
		switch sym.Choose("vary", 4) {
		case 0:
			n[0] = il[sym.Choose("x bytes", len(il))]
		case 1:
			n[1] = il[sym.Choose("y bytes", len(il))]
		case 2:
			n[2] = ol[sym.Choose("first octets", len(ol))]
			n[3] = ol[sym.Choose("second octets", len(ol))]
		case 3:
			n[0], n[1] = il[sym.Choose("x bytes", 2)], il[sym.Choose("y bytes", 2)]
			both = true
		}
	}
	names := []string{"x", "y", "o1", "o2"}
	var parts [4][]byte
	for i := range parts {
		if change == 0 {
			parts[i] = sym.Bytes(names[i], n[i])
		} else { // few free bytes: a changed header can make contents headers
			parts[i] = bytes.Repeat([]byte{0x55}, n[i])
			parts[i][0] = sym.Byte(names[i])
		}
		if both && i < 2 && parts[i][0] == 0 && (n[i] == 32 || parts[i][1] == 0) {
			sym.Stop()
		}
	}
	tags := []byte{2, 2, 4, 4}
	long := -1
	if change == 5 {
		long = sym.Choose("long form", 5)
	}
	var hdrs []int // positions of the header bytes relative to the contents
	var body []byte
	for i := range parts {
		hdrs = append(hdrs, len(body), len(body)+1)
		if i == long {
			body = cat(body, []byte{tags[i], 0x81, byte(n[i])}, parts[i])
		} else {
			body = cat(body, derWrap(tags[i], parts[i]))
		}
	}
	if change == 2 {
		body = cat(body, sym.Bytes("inner", 1+sym.Choose("inner bytes", 2)))
	}
	l := derLen(len(body))
	if long == 4 {
		if len(l) == 1 {
			l = []byte{0x81, l[0]}
		} else {
			l = cat([]byte{l[0] + 1, 0}, l[1:])
		}
	}
	in := cat([]byte{0x30}, l, body)
	off := 1 + len(l)
	switch change {
	case 1:
		k := sym.Choose("header byte", off+len(hdrs))
		pos := k
		if k >= off {
			pos = off + hdrs[k-off]
		}
		in[pos] = sym.Byte("header")
	case 3:
		in = cat(in, sym.Bytes("outer", 1+sym.Choose("outer bytes", 2)))
	case 4:
		in = in[:len(in)-1]
	}
	checkCipherDecoder(order, in)
}

// ---- C18 ----

func specSig(in []byte) (r, s *big.Int, ok bool) {
	seq, rest, ok := derElem(in, 0x30)
	if !ok || len(rest) != 0 {
		return nil, nil, false
	}
	a, seq, ok := derInt(seq)
	if !ok {
		return nil, nil, false
	}
	b, seq, ok := derInt(seq)
	if !ok || len(seq) != 0 {
		return nil, nil, false
	}
	return signed(a), signed(b), true
}

// number is an arbitrary integer of either sign with exactly the given number of bytes in two's complement.
func number(name string, n int) (*big.Int, []byte) {
	b := sym.Bytes(name, n)
	if n > 1 && (b[0] == 0 && b[1] < 0x80 || b[0] == 0xff && b[1] >= 0x80) {
		sym.Stop()
	}
	return signed(b), b
}

func C18_RoundTrip() {
	sym.Bound("C18_RoundTrip: all integers r and s of either sign with 1..3, 8, 9, 31..34 bytes in two's complement (thorough also 4..7, 16, 24, 64, 126, 127); pairs with equal lengths or one of them 1 or 33 bytes")
	ls := []int{1, 2, 3, 8, 9, 31, 32, 33, 34}
	if sym.Thorough() {
		ls = append(ls, 4, 5, 6, 7, 16, 24, 64, 126, 127)
	}
	lr := ls[sym.Choose("bytes of r", len(ls))]
	lsn := lr
	switch sym.Choose("bytes of s", 3) {
	case 0:
		lsn = 1
	case 1:
		lsn = 33
	}
	r, rb := number("r", lr)
	s, sb := number("s", lsn)
	r0, s0 := new(big.Int).Set(r), new(big.Int).Set(s)
	var der []byte
	var err error
	if !sym.NoPanic("MarshalSign", func() { der, err = sm2.MarshalSign(r, s) }) {
		return
	}
	sym.Assert(err == nil, "a signature is encoded")
	if err != nil {
		return
	}
	want := derWrap(0x30, cat(derWrap(2, rb), derWrap(2, sb)))
	sym.Assert(len(der) == len(want), "the encoding has its length")
	if len(der) == len(want) {
		sym.AssertEq(der, want, "the encoding is SEQUENCE {r, s}")
	}
	var gr, gs *big.Int
	if !sym.NoPanic("UnmarshalSign", func() { gr, gs, err = sm2.UnmarshalSign(der) }) {
		return
	}
	sym.Assert(err == nil, "the encoding is decoded")
	if err == nil {
		sym.Assert(gr != nil && gs != nil && sym.And(sym.BigEq(gr, r0), sym.BigEq(gs, s0)), "the round trip restores r and s")
	}
}

func checkSigDecoder(in []byte) {
	keep := cat(in)
	var r, s *big.Int
	var err error
	if !sym.NoPanic("UnmarshalSign", func() { r, s, err = sm2.UnmarshalSign(in) }) {
		return
	}
	wr, ws, ok := specSig(keep)
	if !ok {
		sym.Assert(err != nil, "what is not the DER form of a signature is refused")
		return
	}
	sym.Reach("valid")
	sym.Assert(err == nil, "the DER form of a signature is decoded")
	if err == nil {
		sym.Assert(r != nil && s != nil && sym.And(sym.BigEq(r, wr), sym.BigEq(s, ws)), "the integers are decoded")
	}
}

func C18_DecoderShort() {
	sym.Bound("C18_DecoderShort: all byte strings of 0..8 bytes (thorough 0..9)")
	max := 9
	if sym.Thorough() {
		max = 10
	}
	checkSigDecoder(sym.Bytes("in", sym.Choose("len", max)))
}

// sigShape is a signature encoding with arbitrary integers and one deviation.
func sigShape() []byte {
	il := []int{32, 33, 0, 1, 2, 31, 34}
	n := [2]int{2, 1}
	change := sym.Choose("change", 6)
	if change == 0 {
		n[0] = il[sym.Choose("r bytes", len(il))]
		n[1] = il[sym.Choose("s bytes", len(il))]
	}
	long := -1
	if change == 5 {
		long = sym.Choose("long form", 3)
	}
	var body []byte
	var hdrs []int
	for i, nm := range []string{"r", "s"} {
		p := sym.Bytes(nm, n[i])
		hdrs = append(hdrs, len(body), len(body)+1)
		if i == long {
			body = cat(body, []byte{2, 0x81, byte(n[i])}, p)
		} else {
			body = cat(body, derWrap(2, p))
		}
	}
	if change == 2 {
		body = cat(body, sym.Bytes("inner", 1+sym.Choose("inner bytes", 3)))
	}
	l := derLen(len(body))
	if long == 2 {
		l = []byte{0x81, l[0]}
	}
	in := cat([]byte{0x30}, l, body)
	off := 1 + len(l)
	switch change {
	case 1:
		k := sym.Choose("header byte", off+len(hdrs))
		pos := k
		if k >= off {
			pos = off + hdrs[k-off]
		}
		in[pos] = sym.Byte("header")
	case 3:
		in = cat(in, sym.Bytes("outer", 1+sym.Choose("outer bytes", 3)))
	case 4:
		in = in[:len(in)-1]
	}
	return in
}

const sigShapeBound = "SEQUENCE {INTEGER, INTEGER} with arbitrary contents of 0..2, 31..34 bytes, then one of: nothing changed, any one header byte replaced by any value, 1..3 arbitrary bytes appended inside or outside, the last byte dropped, a length in a longer form than needed"

func C18_DecoderShapes() {
	sym.Bound("C18_DecoderShapes: " + sigShapeBound)
	checkSigDecoder(sigShape())
}

// Verify decides exactly as the strict decoder followed by VerifyByRS.
func C18_Verify() {
	sym.Bound("C18_Verify: all byte strings of 0..8 bytes, and " + sigShapeBound + "; all keys, default id, messages of one byte")
	sym.StubSM3()
	c := curve()
	var in []byte
	if sym.Choose("kind", 2) == 0 {
		in = sym.Bytes("in", sym.Choose("len", 9))
	} else {
		in = sigShape()
	}
	_, pub := keyPair("d", c)
	msg := sym.Bytes("msg", 1)
	got := false
	if !sym.NoPanic("Verify", func() { got = sm2.Verify(pub, nil, msg, in) }) {
		return
	}
	r, s, ok := specSig(in)
	if !ok {
		sym.Assert(!got, "bytes that are no signature encoding do not verify")
		return
	}
	e := specE(c, pub.X, pub.Y, nil, msg)
	want := specVerify(c, pub.X, pub.Y, e, r, s)
	sym.Assert(got == want, "verification of an encoded signature is verification of its integers")
}

// ---- C19 ----

func C19_PublicKey() {
	sym.Bound("C19_PublicKey: all 64-byte strings (every number of leading zero bytes in x while y is free, and the reverse)")
	stdOnly()
	z := sym.Choose("leading zeros", 33)
	which := sym.Choose("which", 2)
	in := sym.Bytes("raw", 64)
	for i := 0; i < z; i++ {
		in[32*which+i] = 0
	}
	if z < 32 && in[32*which+z] == 0 {
		sym.Stop()
	}
	if z > 2 { // the other coordinate has no leading zero
		if in[32-32*which] == 0 {
			sym.Stop()
		}
	}
	keep := cat(in)
	var pub *sm2.PublicKey
	var err error
	if !sym.NoPanic("RawBytesToPublicKey", func() { pub, err = sm2.RawBytesToPublicKey(in) }) {
		return
	}
	if err != nil { // refusing a pair that is not on the curve is no failure of the encoding
		x, y := new(big.Int).SetBytes(keep[:32]), new(big.Int).SetBytes(keep[32:])
		sym.Assert(!curve().IsOnCurve(x, y), "a public key of the curve is decoded")
		return
	}
	sym.Assert(pub.X != nil && pub.Y != nil && pub.Curve.CurveParams != nil, "the decoded key is complete")
	if pub.X == nil || pub.Y == nil || pub.Curve.CurveParams == nil {
		return
	}
	sym.Assert(sameCurve(pub.Curve), "the decoded key is on the SM2 curve")
	for i := range in {
		in[i] ^= 0x5a // the key does not live in the caller's bytes
	}
	var raw, unc []byte
	if sym.NoPanic("GetRawBytes", func() { raw = pub.GetRawBytes() }) {
		sym.Assert(len(raw) == 64, "a public key has 64 raw bytes")
		if len(raw) == 64 {
			sym.AssertEq(raw, keep, "encoding restores the bytes of a public key")
		}
	}
	if sym.NoPanic("GetUnCompressBytes", func() { unc = pub.GetUnCompressBytes() }) {
		sym.Assert(len(unc) == 65, "a public key has 65 bytes with its prefix")
		if len(unc) == 65 {
			sym.AssertEq(unc, cat([]byte{4}, keep), "the prefixed form is 04 || x || y")
		}
	}
	sym.Assert(sym.And(sym.BigEq(pub.X, new(big.Int).SetBytes(keep[:32])), sym.BigEq(pub.Y, new(big.Int).SetBytes(keep[32:]))), "the decoded coordinates are x and y")
}

func sameCurve(c sm2.P256V1Curve) bool {
	s := stdParams()
	return c.P.Cmp(s[0]) == 0 && c.A.Cmp(s[1]) == 0 && c.B.Cmp(s[2]) == 0 && c.N.Cmp(s[3]) == 0 && c.Gx.Cmp(s[4]) == 0 && c.Gy.Cmp(s[5]) == 0 && c.BitSize == 256
}

// stdParams are p, a, b, n, xG, yG of GM/T 0003.5.
func stdParams() []*big.Int {
	var r []*big.Int
	for _, h := range []string{
		"FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF",
		"FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC",
		"28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93",
		"FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123",
		"32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7",
		"BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0"} {
		v, _ := new(big.Int).SetString(h, 16)
		r = append(r, v)
	}
	return r
}

func C19_PrivateKey() {
	sym.Bound("C19_PrivateKey: all 32-byte strings with any number of leading zero bytes")
	stdOnly()
	z := sym.Choose("leading zeros", 33)
	in := zeroed(sym.Bytes("raw", 32), z)
	if z < 32 && in[z] == 0 {
		sym.Stop()
	}
	keep := cat(in)
	var priv *sm2.PrivateKey
	var err error
	if !sym.NoPanic("RawBytesToPrivateKey", func() { priv, err = sm2.RawBytesToPrivateKey(in) }) {
		return
	}
	if err != nil { // refusing what is no private key is no failure of the encoding
		d := new(big.Int).SetBytes(keep)
		sym.Assert(d.Sign() == 0 || d.Cmp(new(big.Int).Sub(stdParams()[3], one)) >= 0, "a private key is decoded")
		return
	}
	sym.Assert(priv.D != nil && priv.Curve.CurveParams != nil && sameCurve(priv.Curve), "the decoded key is on the SM2 curve")
	if priv.D == nil || priv.Curve.CurveParams == nil {
		return
	}
	for i := range in {
		in[i] ^= 0x5a
	}
	var raw []byte
	if sym.NoPanic("GetRawBytes", func() { raw = priv.GetRawBytes() }) {
		sym.Assert(len(raw) == 32, "a private key has 32 raw bytes")
		if len(raw) == 32 {
			sym.AssertEq(raw, keep, "encoding restores the bytes of a private key")
		}
	}
	sym.Assert(sym.BigEq(priv.D, new(big.Int).SetBytes(keep)), "the decoded number is d")
}

func C19_Lengths() {
	sym.Bound("C19_Lengths: all byte strings of 0..130 bytes")
	stdOnly()
	n := sym.Choose("len", 131)
	in := sym.Bytes("raw", n)
	var err error
	if n != 64 {
		var k *sm2.PublicKey
		if sym.NoPanic("RawBytesToPublicKey", func() { k, err = sm2.RawBytesToPublicKey(in) }) {
			sym.Assert(err != nil && k == nil, "a public key of another length is refused")
		}
	}
	if n != 32 {
		var k *sm2.PrivateKey
		if sym.NoPanic("RawBytesToPrivateKey", func() { k, err = sm2.RawBytesToPrivateKey(in) }) {
			sym.Assert(err != nil && k == nil, "a private key of another length is refused")
		}
	}
}

func C19_CalculatePubKey() {
	sym.Bound("C19_CalculatePubKey: all private keys in [1,n-1]; raw forms with at most 1 (thorough 2) leading zero bytes per coordinate")
	c := curve()
	d := sym.BigIn("d", one, new(big.Int).Sub(c.N, one))
	priv := &sm2.PrivateKey{D: d, Curve: c}
	var pub *sm2.PublicKey
	if !sym.NoPanic("CalculatePubKey", func() { pub = sm2.CalculatePubKey(priv) }) {
		return
	}
	x, y := c.ScalarBaseMult(d.Bytes())
	sym.Assert(sym.And(sym.BigEq(pub.X, x), sym.BigEq(pub.Y, y)), "the public key is [d]G")
	sym.Assert(pub.Curve.CurveParams != nil && pub.Curve.N.Cmp(c.N) == 0 && pub.Curve.P.Cmp(c.P) == 0 && pub.Curve.A.Cmp(c.A) == 0, "the public key is on the curve of the private key")
	var raw []byte
	if sym.NoPanic("GetRawBytes", func() { raw = pub.GetRawBytes() }) {
		lengths(x, y)
		sym.Assert(len(raw) == 64, "a public key has 64 raw bytes")
		if len(raw) == 64 {
			sym.AssertEq(raw, cat(fix32(x), fix32(y)), "the raw form is x || y at full width")
		}
	}
}

// ---- C20 ----

func C20_Curve() {
	sym.Bound("C20_Curve: the parameters after package initialisation")
	c := sm2.GetSm2P256V1()
	sym.Assert(c.CurveParams != nil && sameCurve(c), "the curve carries the standard SM2 parameters")
	sym.Assert(c.Params() == c.CurveParams, "Params returns the parameters of the curve")
}

func C20_GenerateKey() {
	sym.Bound("C20_GenerateKey: all bytes of the random source in at most 2 (thorough 4) reads, a failing read at any position")
	stdOnly()
	c := curve()
	draws := 2
	if sym.Thorough() {
		draws = 4
	}
	r := &rnd{failAt: sym.Choose("failing read", draws+1) - 1, max: draws}
	var priv *sm2.PrivateKey
	var pub *sm2.PublicKey
	var err error
	if !sym.NoPanic("GenerateKey", func() { priv, pub, err = sm2.GenerateKey(r) }) {
		return
	}
	if err != nil {
		sym.Assert(r.failed && err == errRand, "an error is the error of the random source")
		sym.Assert(priv == nil && pub == nil, "no key besides an error")
		return
	}
	sym.Assert(!r.failed, "the error of the random source is returned")
	sym.Assert(len(r.draws) > 0, "the key is drawn from the random source")
	sym.Assert(priv != nil && pub != nil && priv.D != nil && pub.X != nil && pub.Y != nil, "both keys are returned")
	if priv == nil || pub == nil || priv.D == nil || pub.X == nil || pub.Y == nil {
		return
	}
	sym.Assert(sameCurve(priv.Curve) && sameCurve(pub.Curve), "the keys are on the SM2 curve")
	inRange := priv.D.Sign() > 0 && priv.D.Cmp(new(big.Int).Sub(c.N, one)) < 0
	sym.Assert(inRange, "1 <= d <= n-2")
	if inRange {
		x, y := c.ScalarBaseMult(priv.D.Bytes())
		sym.Assert(sym.And(sym.BigEq(pub.X, x), sym.BigEq(pub.Y, y)), "the public key is [d]G")
	}
}

// Different draws give different keys: no entropy of the source is thrown away.
func C20_Distinct() {
	sym.Bound("C20_Distinct: all pairs of different 32-byte outputs of the random source that already give a key, delivered in reads of 1, 8, 16, 31 or 32 bytes")
	stdOnly()
	chunk := []int{0, 16, 31, 8, 1}[sym.Choose("bytes per read", 5)]
	reads := 1
	if chunk > 0 {
		reads = (31 + chunk) / chunk
	}
	r1, r2 := &rnd{failAt: -1, max: reads, chunk: chunk}, &rnd{failAt: -1, max: reads, chunk: chunk}
	k1, _, e1 := sm2.GenerateKey(r1)
	k2, _, e2 := sm2.GenerateKey(r2)
	if e1 != nil || e2 != nil {
		sym.Stop()
	}
	sym.Assert(len(r1.all) >= 32 && len(r1.all) == len(r2.all), "32 bytes of the random source are used")
	same := sym.BytesEq(r1.all, r2.all)
	sym.Assert(sym.Or(same, sym.Not(sym.BigEq(k1.D, k2.D))), "different random bytes give different keys")
}
