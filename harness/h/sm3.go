package h

import (
	"crypto/hmac"
	"hash"

	"gmharness/ref"
	"gmharness/sym"

	"github.com/ZZMarquis/gm/sm3"
)

// ---- C01: digests equal the standard ----

func C01_OneShot() {
	max := 200
	if sym.Thorough() {
		max = 520
	}
	sym.Bound("C01_OneShot: every message length 0..200 (thorough 0..520) bytes, all contents")
	n := sym.Choose("len", max+1)
	m := sym.Bytes("m", n)
	want := ref.SM3(m)
	var got [32]byte
	if !sym.NoPanic("sm3.Sum", func() { got = sm3.Sum(m) }) {
		return
	}
	sym.Observe("digest", got[:])
	sym.AssertEq(got[:], want, "sm3.Sum equals GB/T 32905")
}

func C01_Object() {
	max := 200
	if sym.Thorough() {
		max = 520
	}
	sym.Bound("C01_Object: every message length 0..200 (thorough 0..520) bytes in one Write, all contents")
	n := sym.Choose("len", max+1)
	m := sym.Bytes("m", n)
	want := ref.SM3(m)
	var got []byte
	if !sym.NoPanic("Write/Sum", func() {
		h := sm3.New()
		if n > 0 {
			h.Write(m)
		}
		got = h.Sum(nil)
	}) {
		return
	}
	sym.Observe("digest", got)
	sym.AssertEq(got, want, "New/Write/Sum equals GB/T 32905")
}

// The byte counter is made symbolic: any total length, up to the 2^61 bytes the standard allows.
func C01_LongLength() {
	sym.Bound("C01_LongLength: any number of preceding bytes N (multiple of 64, N < 2^60) reflected in the object's byte counter, tail lengths 0..130, all contents; the chaining value is the initial one (the code under test never branches on it)")
	h0, h1, h := sm3.New(), sm3.New(), sm3.New()
	h0.Write(make([]byte, 64))
	h1.Write(make([]byte, 192))
	n := sym.Uint64("N")
	sym.Assume(n%64 == 0 && n < 1<<60)
	if !sym.SkewCounter(h, h0, 64, h1, 192, n) {
		sym.Stop() // no byte counter in the object: outside the bound
	}
	k := sym.Choose("tail", 131)
	m := sym.Bytes("m", k)
	var got []byte
	if !sym.NoPanic("Write/Sum", func() {
		if k > 0 {
			h.Write(m)
		}
		got = h.Sum(nil)
	}) {
		return
	}
	want := ref.SM3Tail(ref.SM3IV, n, m)
	sym.AssertEq(got, want[:], "padding encodes the 64-bit bit length")
}

// ---- C02: streaming ----

func writeAll(h hash.Hash, p []byte) {
	n, err := h.Write(p)
	sym.Assert(n == len(p) && err == nil, "Write reports its full length and no error")
}

func C02_TwoWrites() {
	sym.Bound("C02_TwoWrites: every buffer fill 0..64 before, every second write of 0..70 bytes (thorough: 0..140 and 0..140), all contents")
	a, b := 65, 71
	if sym.Thorough() {
		a, b = 141, 141
	}
	n := sym.Choose("first", a)
	m := sym.Choose("second", b)
	x := sym.Bytes("x", n)
	y := sym.Bytes("y", m)
	var got []byte
	if !sym.NoPanic("Write/Sum", func() {
		h := sm3.New()
		writeAll(h, x)
		writeAll(h, y)
		got = h.Sum(nil)
	}) {
		return
	}
	all := append(append([]byte(nil), x...), y...)
	sym.Observe("digest", got)
	sym.AssertEq(got, ref.SM3(all), "digest of two writes is the digest of the concatenation")
}

func C02_History() {
	sym.Bound("C02_History: every sequence of 3 operations (thorough 4) out of Write of 0,1,3,4,58,64,67 bytes, Sum onto a prefix, Reset; all contents; then Sum twice")
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	sizes := []int{0, 1, 3, 4, 58, 64, 67}
	ops := make([]int, steps)
	for i := range ops {
		ops[i] = sym.Choose("op", len(sizes)+2)
	}
	h := sm3.New()
	var msg []byte
	ok := sym.NoPanic("Write/Sum/Reset", func() {
		for i, op := range ops {
			switch {
			case op < len(sizes):
				// an operation sequence with two equal neighbours of size 0 adds nothing new, but is cheap
				p := sym.Bytes("p", sizes[op])
				writeAll(h, p)
				msg = append(msg, p...)
			case op == len(sizes):
				pre := make([]byte, 2, 2+i*20)
				pre[0], pre[1] = 0xaa, 0xbb
				out := h.Sum(pre)
				sym.Assert(len(out) == 34 && out[0] == 0xaa && out[1] == 0xbb, "Sum appends 32 bytes to its argument")
				if len(out) == 34 {
					sym.AssertEq(out[2:], ref.SM3(msg), "intermediate Sum is the digest so far")
				}
				sym.Assert(len(pre) == 2 && pre[0] == 0xaa && pre[1] == 0xbb, "Sum leaves the given bytes alone")
			default:
				h.Reset()
				msg = nil
			}
		}
	})
	if !ok {
		return
	}
	want := ref.SM3(msg)
	var s1, s2 []byte
	if sym.NoPanic("Sum", func() { s1 = h.Sum(nil); s2 = h.Sum(nil) }) {
		sym.Observe("digest", s1)
		sym.AssertEq(s1, want, "digest depends only on the concatenated bytes since the last Reset")
		sym.AssertEq(s2, want, "Sum can be repeated")
	}
}

func C02_CallerBuffer() {
	sym.Bound("C02_CallerBuffer: writes of 0..66 bytes; the caller's slice is changed afterwards")
	n := sym.Choose("n", 67)
	x := sym.Bytes("x", n)
	y := append([]byte(nil), x...)
	want := ref.SM3(append(append([]byte(nil), x...), 7))
	var got []byte
	if !sym.NoPanic("Write/Sum", func() {
		h := sm3.New()
		writeAll(h, y)
		sym.AssertEq(y, x, "Write does not modify its argument")
		for i := range y {
			y[i] = 0x55
		}
		writeAll(h, []byte{7})
		got = h.Sum(nil)
	}) {
		return
	}
	sym.AssertEq(got, want, "the hash keeps no reference to written slices")
}

func C02_Independent() {
	sym.Bound("C02_Independent: two hash objects used alternately (0..66 bytes each)")
	n := sym.Choose("n", 67)
	x := sym.Bytes("x", n)
	y := sym.Bytes("y", 5)
	var g1, g2 []byte
	if !sym.NoPanic("Write/Sum", func() {
		h1, h2 := sm3.New(), sm3.New()
		writeAll(h1, x)
		writeAll(h2, y)
		writeAll(h1, y)
		g1 = h1.Sum(nil)
		writeAll(h2, x)
		g2 = h2.Sum(nil)
	}) {
		return
	}
	sym.AssertEq(g1, ref.SM3(append(append([]byte(nil), x...), y...)), "objects are independent")
	sym.AssertEq(g2, ref.SM3(append(append([]byte(nil), y...), x...)), "objects are independent")
}

// ---- C03: geometry ----

func C03_Geometry() {
	sym.Bound("C03_Geometry: fresh object, after writes of 0..70 bytes and after Reset")
	h := sm3.New()
	n := sym.Choose("n", 71)
	if n > 0 {
		h.Write(sym.Bytes("x", n))
	}
	sym.Assert(h.Size() == 32, "Size is 32")
	sym.Assert(h.BlockSize() == 64, "BlockSize is 64")
	h.Reset()
	sym.Assert(h.Size() == 32, "Size is 32")
	sym.Assert(h.BlockSize() == 64, "BlockSize is 64")
	sym.Assert(len(h.Sum(nil)) == h.Size(), "Sum appends Size bytes")
	sym.Assert(sm3.DigestLength == 32, "DigestLength is 32")
}

func C03_HMAC() {
	sym.Bound("C03_HMAC: every key length 0..70 (thorough 0..140), message lengths 0,1,20,64 (thorough 0..70 in steps of 7), all contents; computed twice with Reset in between")
	nk := 71
	lens := []int{1, 20, 64, 0}
	if sym.Thorough() {
		nk = 141
		lens = []int{0, 7, 14, 21, 28, 35, 42, 49, 56, 63, 64, 70, 128}
	}
	key := sym.Bytes("key", sym.Choose("keylen", nk))
	msg := sym.Bytes("msg", lens[sym.Choose("msglen", len(lens))])
	want := ref.HMACSM3(key, msg)
	var m1, m2 []byte
	if !sym.NoPanic("HMAC", func() {
		mac := hmac.New(sm3.New, key)
		mac.Write(msg)
		m1 = mac.Sum(nil)
		mac.Reset()
		mac.Write(msg)
		m2 = mac.Sum(nil)
	}) {
		return
	}
	sym.Observe("mac", m1)
	sym.AssertEq(m1, want, "HMAC over sm3.New is HMAC-SM3")
	sym.AssertEq(m2, want, "HMAC after Reset is HMAC-SM3")
}
