package h

import (
	"crypto/cipher"

	"gmharness/ref"
	"gmharness/sym"

	"github.com/ZZMarquis/gm/sm4"
)

func newCipher(key []byte) cipher.Block {
	var c cipher.Block
	var err error
	if !sym.NoPanic("NewCipher", func() { c, err = sm4.NewCipher(key) }) {
		return nil
	}
	sym.Assert(err == nil, "a 16-byte key is accepted")
	if err != nil {
		return nil
	}
	return c
}

// ---- C04 ----

func C04_Block() {
	sym.Bound("C04_Block: all keys, all blocks")
	key := sym.Bytes("key", 16)
	in := sym.Bytes("block", 16)
	c := newCipher(key)
	if c == nil {
		return
	}
	sym.Assert(c.BlockSize() == 16, "BlockSize is 16")
	out := make([]byte, 16)
	if sym.NoPanic("Encrypt", func() { c.Encrypt(out, in) }) {
		sym.Observe("out", out)
		sym.AssertEq(out, ref.SM4Encrypt(key, in), "ciphertext equals GB/T 32907")
	}
}

func C04_DecryptBlock() {
	sym.Bound("C04_DecryptBlock: all keys, all blocks")
	key := sym.Bytes("key", 16)
	in := sym.Bytes("block", 16)
	c := newCipher(key)
	if c == nil {
		return
	}
	out := make([]byte, 16)
	if sym.NoPanic("Decrypt", func() { c.Decrypt(out, in) }) {
		sym.Observe("out", out)
		sym.AssertEq(out, ref.SM4Decrypt(key, in), "decryption equals GB/T 32907")
	}
}

func C04_KeyLength() {
	sym.Bound("C04_KeyLength: key lengths 0..40 other than 16 are refused")
	n := sym.Choose("len", 41)
	if n == 16 {
		sym.Stop()
	}
	key := sym.Bytes("key", n)
	sym.NoPanic("NewCipher", func() {
		c, err := sm4.NewCipher(key)
		sym.Assert(err != nil && c == nil, "a key of another length is refused")
		if err != nil {
			_ = err.Error()
		}
	})
}

// C04_KeyReuse: the key slice belongs to the caller, who may overwrite it and
// make further ciphers from it; each cipher keeps the key it was made with.
func C04_KeyReuse() {
	sym.Bound("C04_KeyReuse: two ciphers made in a row from one key slice whose contents change in between (all 16 bytes or only one), or from two slices with the same contents; then each encrypts and decrypts a block")
	buf := sym.Bytes("key", 16)
	key1 := append([]byte(nil), buf...)
	in := sym.Bytes("block", 16)
	c1 := newCipher(buf)
	if c1 == nil {
		return
	}
	out := make([]byte, 16)
	if sym.Choose("used in between", 2) == 1 {
		if !sym.NoPanic("Encrypt", func() { c1.Encrypt(out, in) }) {
			return
		}
	}
	switch sym.Choose("change", 3) {
	case 0:
		copy(buf, sym.Bytes("key2", 16))
	case 1:
		buf[15] ^= 1
	case 2:
		buf = append([]byte(nil), buf...)
	}
	key2 := append([]byte(nil), buf...)
	c2 := newCipher(buf)
	if c2 == nil {
		return
	}
	for i := range buf {
		buf[i] = 0 // the caller wipes its key
	}
	for _, x := range []struct {
		c   cipher.Block
		key []byte
	}{{c1, key1}, {c2, key2}} {
		if sym.NoPanic("Encrypt", func() { x.c.Encrypt(out, in) }) {
			sym.AssertEq(out, ref.SM4Encrypt(x.key, in), "a cipher encrypts under the key it was made with")
		}
		if sym.NoPanic("Decrypt", func() { x.c.Decrypt(out, in) }) {
			sym.AssertEq(out, ref.SM4Decrypt(x.key, in), "a cipher decrypts under the key it was made with")
		}
	}
}

// ---- C05 ----

func C05_Inverse() {
	sym.Bound("C05_Inverse: all keys and blocks; destination buffers distinct, equal, or at every overlapping offset -15..15 of one buffer; both directions")
	key := sym.Bytes("key", 16)
	c := newCipher(key)
	if c == nil {
		return
	}
	dir := sym.Choose("dir", 2)
	off := sym.Choose("offset", 31) - 15
	buf := make([]byte, 64)
	fill := sym.Bytes("mem", 64)
	copy(buf, fill)
	src := buf[20:36:36]
	dst := buf[20+off : 36+off : 36+off]
	in := append([]byte(nil), src...)
	f, g := c.Encrypt, c.Decrypt
	if dir == 1 {
		f, g = g, f
	}
	if !sym.NoPanic("crypt", func() { f(dst, src) }) {
		return
	}
	out := append([]byte(nil), dst...)
	var want []byte
	if dir == 0 {
		want = ref.SM4Encrypt(key, in)
	} else {
		want = ref.SM4Decrypt(key, in)
	}
	sym.Observe("out", out)
	sym.AssertEq(out, want, "overlapping buffers give the same block")
	sym.AssertEq(buf[:20+off], fill[:20+off], "memory before the destination is untouched")
	sym.AssertEq(buf[36+off:], fill[36+off:], "memory after the destination is untouched")
	back := make([]byte, 16)
	if sym.NoPanic("crypt", func() { g(back, out) }) {
		sym.AssertEq(back, in, "decryption inverts encryption")
	}
	if sym.NoPanic("crypt", func() { g(out, out) }) {
		sym.AssertEq(out, in, "decryption in place inverts encryption")
	}
}

func C05_LongBuffers() {
	sym.Bound("C05_LongBuffers: source and destination of 16..40 bytes, only the first block counts")
	key := sym.Bytes("key", 16)
	c := newCipher(key)
	if c == nil {
		return
	}
	dir := sym.Choose("dir", 2)
	src := sym.Bytes("src", 16+8*sym.Choose("srclen", 4))
	fill := sym.Bytes("dst", 16+8*sym.Choose("dstlen", 4))
	dst := append([]byte(nil), fill...)
	s0 := append([]byte(nil), src...)
	f := c.Encrypt
	want := ref.SM4Encrypt(key, src[:16])
	if dir == 1 {
		f = c.Decrypt
		want = ref.SM4Decrypt(key, src[:16])
	}
	if !sym.NoPanic("crypt", func() { f(dst, src) }) {
		return
	}
	sym.Observe("out", dst)
	sym.AssertEq(dst[:16], want, "the first destination block is the result")
	sym.AssertEq(dst[16:], fill[16:], "the rest of the destination is untouched")
	sym.AssertEq(src, s0, "the source is untouched")
}

// ---- C06 ----

const (
	ecb = iota
	cbc
)

func runMode(mode, dir int, key, iv, in []byte) (out []byte, err error, ok bool) {
	ok = sym.NoPanic("mode call", func() {
		switch {
		case mode == ecb && dir == 0:
			out, err = sm4.ECBEncrypt(key, in)
		case mode == ecb:
			out, err = sm4.ECBDecrypt(key, in)
		case dir == 0:
			out, err = sm4.CBCEncrypt(key, iv, in)
		default:
			out, err = sm4.CBCDecrypt(key, iv, in)
		}
	})
	return
}

func xor16(a, b []byte) []byte {
	r := make([]byte, 16)
	for i := range r {
		r[i] = a[i] ^ b[i]
	}
	return r
}

func refMode(mode, dir int, key, iv, in []byte) []byte {
	rk := ref.SM4Keys(key)
	var rd [32]uint32
	for i := range rk {
		rd[i] = rk[31-i]
	}
	var out []byte
	prev := iv
	for i := 0; i < len(in); i += 16 {
		b := in[i : i+16]
		switch {
		case mode == ecb && dir == 0:
			out = append(out, ref.SM4Crypt(rk, b)...)
		case mode == ecb:
			out = append(out, ref.SM4Crypt(rd, b)...)
		case dir == 0:
			prev = ref.SM4Crypt(rk, xor16(b, prev))
			out = append(out, prev...)
		default:
			out = append(out, xor16(ref.SM4Crypt(rd, b), prev)...)
			prev = b
		}
	}
	return out
}

func C06_Modes() {
	sym.Bound("C06_Modes: ECB and CBC, both directions, 0..3 blocks (thorough 0..6), all keys, IVs and messages; caller buffers with spare capacity")
	max := 4
	if sym.Thorough() {
		max = 7
	}
	mode := sym.Choose("mode", 2)
	dir := sym.Choose("dir", 2)
	nb := sym.Choose("blocks", max)
	key := sym.Bytes("key", 16)
	iv := sym.Bytes("iv", 16)
	mem := sym.Bytes("msg", 16*nb+20)
	m0 := append([]byte(nil), mem...)
	in := mem[:16*nb]
	k0 := append([]byte(nil), key...)
	iv0 := append([]byte(nil), iv...)
	out, err, ok := runMode(mode, dir, key, iv, in)
	if !ok {
		return
	}
	sym.Assert(err == nil, "whole blocks are accepted")
	if err != nil {
		return
	}
	sym.Observe("out", out)
	sym.Assert(len(out) == len(in), "output has the length of the input")
	sym.AssertEq(out, refMode(mode, dir, k0, iv0, m0[:16*nb]), "output equals the mode")
	sym.AssertEq(mem, m0, "the message buffer is not modified")
	sym.AssertEq(key, k0, "the key is not modified")
	sym.AssertEq(iv, iv0, "the IV is not modified")
	back, err, ok := runMode(mode, 1-dir, key, iv, out)
	if ok {
		sym.Assert(err == nil, "the inverse direction accepts it")
		sym.AssertEq(back, m0[:16*nb], "the inverse direction restores the message")
	}
}

func C06_Refuse() {
	sym.Bound("C06_Refuse: message lengths 0..49, key lengths 0,15,16,17,32, IV lengths 0,1,15,16,17,32; every combination that is not valid")
	mode := sym.Choose("mode", 2)
	dir := sym.Choose("dir", 2)
	n := sym.Choose("len", 50)
	kl := []int{16, 0, 15, 17, 32}[sym.Choose("keylen", 5)]
	il := []int{16, 0, 1, 15, 17, 32}[sym.Choose("ivlen", 6)]
	if mode == ecb && il != 16 {
		sym.Stop()
	}
	if n%16 == 0 && kl == 16 && il == 16 {
		sym.Stop()
	}
	key := sym.Bytes("key", kl)
	iv := sym.Bytes("iv", il)
	in := sym.Bytes("msg", n)
	in0 := append([]byte(nil), in...)
	out, err, ok := runMode(mode, dir, key, iv, in)
	if !ok {
		return
	}
	sym.Assert(err != nil, "an invalid key, IV or message length is refused with an error")
	sym.Assert(out == nil, "no output is returned with an error")
	sym.AssertEq(in, in0, "the message buffer is not modified")
}

// ---- C07 ----

func C07_KeyCopied() {
	sym.Bound("C07_KeyCopied: all keys, replacement keys and blocks; both directions")
	key := sym.Bytes("key", 16)
	k0 := append([]byte(nil), key...)
	other := sym.Bytes("other", 16)
	in := sym.Bytes("in", 16)
	dir := sym.Choose("dir", 2)
	c := newCipher(key)
	if c == nil {
		return
	}
	sym.AssertEq(key, k0, "NewCipher does not modify the key")
	out := make([]byte, 16)
	pre := sym.Choose("use before", 2)
	if pre == 1 {
		c.Encrypt(out, in)
		c.Decrypt(out, out)
	}
	copy(key, other)
	want := ref.SM4Encrypt(k0, in)
	if dir == 0 {
		c.Encrypt(out, in)
	} else {
		want = ref.SM4Decrypt(k0, in)
		c.Decrypt(out, in)
	}
	sym.Observe("out", out)
	sym.AssertEq(out, want, "later changes of the key slice have no effect")
}

func C07_NoSharedWrites() {
	sym.Bound("C07_NoSharedWrites: one symbolic Encrypt or Decrypt call after any of 4 earlier calls; every store of the call is checked against the memory reachable from the cipher, the package variables and the source (race freedom of all interleavings follows from the absence of such stores)")
	key := sym.Bytes("key", 16)
	in := sym.Bytes("in", 16)
	c := newCipher(key)
	if c == nil {
		return
	}
	out := make([]byte, 16)
	for i := sym.Choose("before", 4); i > 0; i-- {
		if i&1 == 1 {
			c.Encrypt(out, in)
		} else {
			c.Decrypt(out, in)
		}
	}
	dir := sym.Choose("dir", 2)
	want := ref.SM4Encrypt(key, in)
	if dir == 1 {
		want = ref.SM4Decrypt(key, in)
	}
	sym.Freeze("cipher or source", c, in, key)
	sym.FreezeGlobals()
	if dir == 0 {
		c.Encrypt(out, in)
	} else {
		c.Decrypt(out, in)
	}
	sym.Unfreeze()
	sym.AssertEq(out, want, "result is the block function of the creation key")
}

func C07_TwoCiphers() {
	sym.Bound("C07_TwoCiphers: two ciphers with arbitrary keys, used alternately in 6 orders")
	k1 := sym.Bytes("k1", 16)
	k2 := sym.Bytes("k2", 16)
	in := sym.Bytes("in", 16)
	c1 := newCipher(k1)
	var c2 cipher.Block
	order := sym.Choose("order", 3)
	o1, o2, o3 := make([]byte, 16), make([]byte, 16), make([]byte, 16)
	if order == 0 {
		c1.Encrypt(o1, in)
	}
	c2 = newCipher(k2)
	if c1 == nil || c2 == nil {
		return
	}
	if order == 1 {
		c1.Encrypt(o1, in)
	}
	c2.Encrypt(o2, in)
	c2.Decrypt(o3, in)
	if order == 2 {
		c1.Encrypt(o1, in)
	}
	sym.AssertEq(o1, ref.SM4Encrypt(k1, in), "first cipher")
	sym.AssertEq(o2, ref.SM4Encrypt(k2, in), "second cipher")
	sym.AssertEq(o3, ref.SM4Decrypt(k2, in), "second cipher, decrypting")
}
