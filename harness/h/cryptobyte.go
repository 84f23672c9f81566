package h

import (
	"math/big"

	"gmharness/ref"
	"gmharness/sym"

	encoding_asn1 "encoding/asn1"

	"github.com/ZZMarquis/gm/cryptobyte"
	"github.com/ZZMarquis/gm/cryptobyte/asn1"
)

// ---- C24 ----

func be(b []byte) uint32 {
	v := uint32(0)
	for _, x := range b {
		v = v*256 + uint32(x)
	}
	return v
}

func C24_Reads() {
	sym.Bound("C24_Reads: every input of 0..7 (thorough 0..12) bytes, every reader, every requested size (all int values)")
	nmax := 8
	if sym.Thorough() {
		nmax = 13
	}
	in := sym.Bytes("in", sym.Choose("n", nmax))
	i0 := append([]byte(nil), in...)
	s := cryptobyte.String(in)
	n := len(in)
	op := sym.Choose("op", 8)
	size := sym.Choose("twice", 2)
	if size == 1 { // an earlier read must not matter
		var x uint8
		ok := s.ReadUint8(&x)
		sym.Assert(ok == (n >= 1), "ReadUint8 succeeds exactly when a byte is left")
		if !ok {
			sym.Assert(len(s) == 0, "a failed byte read consumes nothing")
			return
		}
		sym.Assert(x == i0[0], "ReadUint8 returns the next byte")
		i0 = i0[1:]
		n--
	}
	fixed := func(ok bool, v uint32, k int) {
		sym.Assert(ok == (n >= k), "a fixed-size read succeeds exactly when enough bytes are left")
		if ok {
			sym.Assert(v == be(i0[:k]), "the value is big-endian")
			sym.AssertEq(s, i0[k:], "exactly the rest is left")
		}
	}
	sym.NoPanic("String reader", func() {
		switch op {
		case 0:
			var v uint8
			ok := s.ReadUint8(&v)
			fixed(ok, uint32(v), 1)
		case 1:
			var v uint16
			ok := s.ReadUint16(&v)
			fixed(ok, uint32(v), 2)
		case 2:
			var v uint32
			ok := s.ReadUint24(&v)
			fixed(ok, v, 3)
		case 3:
			var v uint32
			ok := s.ReadUint32(&v)
			fixed(ok, v, 4)
		case 4:
			k := sym.Int("k")
			var v []byte
			ok := s.ReadBytes(&v, k)
			sym.Assert(ok == (k >= 0 && k <= n), "ReadBytes succeeds exactly for the sizes available")
			if ok {
				k = sym.Concrete(k)
				sym.AssertEq(v, i0[:k], "ReadBytes returns the next bytes")
				sym.AssertEq(s, i0[k:], "ReadBytes leaves exactly the rest")
			}
		case 5:
			k := sym.Int("k")
			ok := s.Skip(k)
			sym.Assert(ok == (k >= 0 && k <= n), "Skip succeeds exactly for the sizes available")
			if ok {
				k = sym.Concrete(k)
				sym.AssertEq(s, i0[k:], "Skip leaves exactly the rest")
			}
		case 6:
			k := sym.Choose("k", nmax+2)
			out := sym.Bytes("out", k)
			ok := s.CopyBytes(out)
			sym.Assert(ok == (k <= n), "CopyBytes succeeds exactly for the sizes available")
			if ok {
				sym.AssertEq(out, i0[:k], "CopyBytes copies the next bytes")
				sym.AssertEq(s, i0[k:], "CopyBytes leaves exactly the rest")
			}
		case 7:
			sym.Assert(s.Empty() == (n == 0), "Empty agrees with the bytes left")
			sym.AssertEq(s, i0, "Empty consumes nothing")
		}
	})
	if size == 1 {
		sym.AssertEq(in[1:], i0, "readers do not write to the input")
	} else {
		sym.AssertEq(in, i0, "readers do not write to the input")
	}
}

func C24_LengthPrefixed() {
	sym.Bound("C24_LengthPrefixed: prefixes of 1, 2 and 3 bytes with all values on every input of 0..9 bytes (thorough 0..14), and on inputs of 255..258 (thorough also 300) bytes beyond the prefix")
	ns := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 258, 259, 260}
	if sym.Thorough() {
		ns = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 256, 257, 258, 259, 260, 261, 303}
	}
	in := sym.Bytes("in", ns[sym.Choose("n", len(ns))])
	i0 := append([]byte(nil), in...)
	s := cryptobyte.String(in)
	w := sym.Choose("width", 3) + 1
	var out cryptobyte.String
	var ok bool
	if !sym.NoPanic("length-prefixed reader", func() {
		switch w {
		case 1:
			ok = s.ReadUint8LengthPrefixed(&out)
		case 2:
			ok = s.ReadUint16LengthPrefixed(&out)
		case 3:
			ok = s.ReadUint24LengthPrefixed(&out)
		}
	}) {
		return
	}
	sym.AssertEq(in, i0, "readers do not write to the input")
	if len(i0) < w {
		sym.Assert(!ok, "a missing prefix is an error")
		return
	}
	l := be(i0[:w])
	sym.Assert(ok == (uint64(l) <= uint64(len(i0)-w)), "a length-prefixed read succeeds exactly when the contents are complete")
	if ok {
		k := sym.Concrete(int(l))
		sym.AssertEq(out, i0[w:w+k], "the contents are returned")
		sym.AssertEq(s, i0[w+k:], "exactly the rest is left")
	}
}

// ---- C25 ----

func derInput(quick, thorough int) []byte {
	max := quick
	if sym.Thorough() {
		max = thorough
	}
	n := sym.Choose("n", max+4)
	switch n {
	case max:
		n = 133
	case max + 1:
		n = 262
	case max + 2:
		n = 4 + 300
	case max + 3:
		n = 65536 + 6
		in := make([]byte, n)
		copy(in, sym.Bytes("head", 6))
		copy(in[n-3:], sym.Bytes("tail", 3))
		_, _, l, ok := ref.Header(in)
		sym.Assume(!ok || l >= 65532)
		return in
	}
	return sym.Bytes("in", n)
}

func C25_Any() {
	sym.Bound("C25_Any: every input of 0..9 (thorough 0..12) bytes and inputs of 133, 262, 304 and 65542 bytes (header free; for the last one contents of at least 65532 bytes or a bad header)")
	in := derInput(10, 13)
	s := cryptobyte.String(in)
	tag, hl, cl, want := ref.Header(in)
	var out cryptobyte.String
	var t asn1.Tag
	var ok bool
	variant := sym.Choose("variant", 4)
	if !sym.NoPanic("ReadAnyASN1", func() {
		switch variant {
		case 0:
			ok = s.ReadAnyASN1(&out, &t)
		case 1:
			ok = s.ReadAnyASN1Element(&out, &t)
		case 2:
			ok = s.ReadAnyASN1(&out, nil)
		case 3:
			ok = s.ReadAnyASN1Element(&out, nil)
		}
	}) {
		return
	}
	sym.Assert(ok == want, "an element is read exactly when the input starts with one in DER")
	if !ok || !want {
		return
	}
	hl, cl = sym.Concrete(hl), sym.Concrete(cl)
	if variant < 2 {
		sym.Assert(byte(t) == tag, "the tag is the identifier octet")
	}
	if variant%2 == 0 {
		sym.AssertEq(out, in[hl:hl+cl], "the contents are split off")
	} else {
		sym.AssertEq(out, in[:hl+cl], "the whole element is split off")
	}
	sym.AssertEq(s, in[hl+cl:], "exactly the rest is left")
}

func C25_Tagged() {
	sym.Bound("C25_Tagged: every input of 0..6 (thorough 0..9) bytes and inputs of 133, 262, 304 and 65542 bytes, every expected tag; ReadASN1, ReadASN1Element, ReadASN1Bytes, SkipASN1, PeekASN1Tag, ReadOptionalASN1, SkipOptionalASN1")
	in := derInput(7, 10)
	s := cryptobyte.String(in)
	want := sym.Byte("tag")
	tag, hl, cl, good := ref.Header(in)
	match := good && tag == want
	present := len(in) > 0 && in[0] == want
	var out cryptobyte.String
	op := sym.Choose("op", 8)
	var ok, pres bool
	if !sym.NoPanic("tagged ASN.1 reader", func() {
		switch op {
		case 0:
			ok = s.ReadASN1(&out, asn1.Tag(want))
		case 1:
			ok = s.ReadASN1Element(&out, asn1.Tag(want))
		case 2:
			var b []byte
			ok = s.ReadASN1Bytes(&b, asn1.Tag(want))
			out = b
		case 3:
			ok = s.SkipASN1(asn1.Tag(want))
		case 4:
			ok = s.PeekASN1Tag(asn1.Tag(want))
		case 5:
			ok = s.ReadOptionalASN1(&out, &pres, asn1.Tag(want))
		case 6:
			ok = s.ReadOptionalASN1(&out, nil, asn1.Tag(want))
		case 7:
			ok = s.SkipOptionalASN1(asn1.Tag(want))
		}
	}) {
		return
	}
	if op == 4 {
		sym.Assert(ok == present, "peeking compares the identifier octet")
		sym.AssertEq(s, in, "peeking consumes nothing")
		return
	}
	if op >= 5 {
		if op == 5 {
			sym.Assert(pres == present, "presence is the identifier octet matching")
		}
		if !present {
			sym.Assert(ok, "an absent optional element is no error")
			sym.AssertEq(s, in, "an absent optional element consumes nothing")
			return
		}
	}
	sym.Assert(ok == match, "success exactly for a DER element with the expected tag")
	if !ok || !match {
		return
	}
	hl, cl = sym.Concrete(hl), sym.Concrete(cl)
	switch op {
	case 0, 2, 5, 6:
		sym.AssertEq(out, in[hl:hl+cl], "the contents are split off")
	case 1:
		sym.AssertEq(out, in[:hl+cl], "the whole element is split off")
	}
	sym.AssertEq(s, in[hl+cl:], "exactly the rest is left")
}

// ---- C26 ----

func built(what string, f func(b *cryptobyte.Builder)) []byte {
	b := cryptobyte.NewBuilder(nil)
	var out []byte
	var err error
	if !sym.NoPanic(what, func() {
		f(b)
		out, err = b.Bytes()
	}) {
		sym.Stop()
	}
	sym.Assert(err == nil, what+" succeeds")
	if err != nil {
		sym.Stop()
	}
	return out
}

// afterValue appends symbolic bytes that a reader has to leave alone.
func afterValue(b []byte) ([]byte, []byte) {
	t := sym.Bytes("after", 2)
	return append(append([]byte(nil), b...), t...), t
}

func C26_Int64() {
	sym.Bound("C26_Int64: every int64, uint64 and enumerated value")
	op := sym.Choose("op", 3)
	switch op {
	case 0:
		v := sym.Int64("v")
		out := built("AddASN1Int64", func(b *cryptobyte.Builder) { b.AddASN1Int64(v) })
		sym.AssertEq(out, ref.TLV(2, ref.Int64Contents(v)), "an int64 is written in minimal DER")
		in, rest := afterValue(out)
		s := cryptobyte.String(in)
		var r int64
		sym.NoPanic("ReadASN1Integer", func() {
			sym.Assert(s.ReadASN1Integer(&r), "a written int64 can be read")
			sym.Assert(r == v, "a written int64 reads back")
			sym.AssertEq(s, rest, "exactly the rest is left")
		})
	case 1:
		v := sym.Uint64("v")
		out := built("AddASN1Uint64", func(b *cryptobyte.Builder) { b.AddASN1Uint64(v) })
		sym.AssertEq(out, ref.TLV(2, ref.Uint64Contents(v)), "a uint64 is written in minimal DER")
		in, rest := afterValue(out)
		s := cryptobyte.String(in)
		var r uint64
		sym.NoPanic("ReadASN1Integer", func() {
			sym.Assert(s.ReadASN1Integer(&r), "a written uint64 can be read")
			sym.Assert(r == v, "a written uint64 reads back")
			sym.AssertEq(s, rest, "exactly the rest is left")
		})
	case 2:
		v := sym.Int64("v")
		out := built("AddASN1Enum", func(b *cryptobyte.Builder) { b.AddASN1Enum(v) })
		sym.AssertEq(out, ref.TLV(10, ref.Int64Contents(v)), "an enumerated value is written in minimal DER")
		in, rest := afterValue(out)
		s := cryptobyte.String(in)
		var r int
		sym.NoPanic("ReadASN1Enum", func() {
			sym.Assert(s.ReadASN1Enum(&r), "a written enumerated value can be read")
			sym.Assert(int64(r) == v, "a written enumerated value reads back")
			sym.AssertEq(s, rest, "exactly the rest is left")
		})
	}
}

func C26_Big() {
	sym.Bound("C26_Big: arbitrary-precision integers of both signs with magnitudes of 0..3, 7..9 and 127 bytes (thorough 0..10, 12, 15..17, 20, 32, 33, 126..129, 255)")
	ls := []int{0, 1, 2, 3, 7, 8, 9, 127}
	if sym.Thorough() {
		ls = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 32, 33, 126, 127, 128, 129, 255}
	}
	mag := sym.Bytes("mag", ls[sym.Choose("len", len(ls))])
	sym.Assume(len(mag) == 0 || mag[0] != 0)
	neg := sym.Choose("neg", 2) == 1
	v := new(big.Int).SetBytes(mag)
	if neg {
		v.Neg(v)
	}
	v0 := new(big.Int).Set(v)
	out := built("AddASN1BigInt", func(b *cryptobyte.Builder) { b.AddASN1BigInt(v) })
	sym.Observe("out", out)
	sym.AssertEq(out, ref.TLV(2, ref.MagContents(neg, mag)), "a big integer is written in minimal DER")
	sym.Assert(v.Cmp(v0) == 0, "writing leaves the number alone")
	in, rest := afterValue(out)
	s := cryptobyte.String(in)
	r := new(big.Int)
	if sym.Choose("dirty", 2) == 1 {
		r.SetInt64(-77)
	}
	sym.NoPanic("ReadASN1Integer", func() {
		sym.Assert(s.ReadASN1Integer(r), "a written big integer can be read")
		sym.Assert(r.Cmp(v0) == 0, "a written big integer reads back")
		sym.AssertEq(s, rest, "exactly the rest is left")
	})
}

// wantInt gives the value of the minimal integer contents c if it fits in 64 bits (signed / unsigned).
func wantInt(c []byte) (i int64, iok bool, u uint64, uok bool) {
	if !ref.Minimal(c) {
		return
	}
	neg := c[0] >= 128
	if len(c) <= 8 {
		if neg {
			i = -1
		}
		for _, x := range c {
			i = i<<8 | int64(x)
		}
		iok = true
		if !neg {
			u, uok = uint64(i), true
		}
		return
	}
	if len(c) == 9 && c[0] == 0 {
		for _, x := range c[1:] {
			u = u<<8 | uint64(x)
		}
		uok = true
	}
	return
}

func C26_Read() {
	sym.Bound("C26_Read: every INTEGER contents of 0..10 bytes (thorough 0..14) under the INTEGER tag or any other tag, into every integer type, enumerations and big integers, directly and as optional elements")
	nmax := 11
	if sym.Thorough() {
		nmax = 15
	}
	c := sym.Bytes("contents", sym.Choose("n", nmax))
	dest := sym.Choose("dest", 14)
	tag := sym.Byte("tag")
	in := append([]byte{tag, byte(len(c))}, c...)
	after := sym.Bytes("after", 1)
	in = append(in, after...)
	s := cryptobyte.String(in)
	i, iok, u, uok := wantInt(c)
	var ok, want bool
	same := true
	wantTag := byte(2)
	if !sym.NoPanic("ReadASN1Integer", func() {
		switch dest {
		case 0:
			var r int8
			ok = s.ReadASN1Integer(&r)
			want, same = iok && i >= -128 && i < 128, int64(r) == i
		case 1:
			var r int16
			ok = s.ReadASN1Integer(&r)
			want, same = iok && i >= -32768 && i < 32768, int64(r) == i
		case 2:
			var r int32
			ok = s.ReadASN1Integer(&r)
			want, same = iok && i >= -1<<31 && i < 1<<31, int64(r) == i
		case 3:
			var r int64
			ok = s.ReadASN1Integer(&r)
			want, same = iok, r == i
		case 4:
			var r int
			ok = s.ReadASN1Integer(&r)
			want, same = iok, int64(r) == i
		case 5:
			var r uint8
			ok = s.ReadASN1Integer(&r)
			want, same = uok && u < 256, uint64(r) == u
		case 6:
			var r uint16
			ok = s.ReadASN1Integer(&r)
			want, same = uok && u < 65536, uint64(r) == u
		case 7:
			var r uint32
			ok = s.ReadASN1Integer(&r)
			want, same = uok && u < 1<<32, uint64(r) == u
		case 8:
			var r uint64
			ok = s.ReadASN1Integer(&r)
			want, same = uok, r == u
		case 9:
			var r uint
			ok = s.ReadASN1Integer(&r)
			want, same = uok, uint64(r) == u
		case 10:
			wantTag = 10
			var r int
			ok = s.ReadASN1Enum(&r)
			want, same = iok, int64(r) == i
		case 11: // big.Int
			r := new(big.Int)
			ok = s.ReadASN1Integer(r)
			want = ref.Minimal(c)
			if ok && want {
				x := new(big.Int).SetBytes(c)
				if c[0] >= 128 {
					x.Sub(x, new(big.Int).Lsh(big.NewInt(1), uint(8*len(c))))
				}
				same = x.Cmp(r) == 0
			}
		case 12: // a dirty destination must not shine through
			r := int64(-5)
			ok = s.ReadASN1Integer(&r)
			want, same = iok, r == i
		case 13:
			type myInt int16
			var r myInt
			ok = s.ReadASN1Integer(&r)
			want, same = iok && i >= -32768 && i < 32768, int64(r) == i
		}
	}) {
		return
	}
	want = want && tag == wantTag
	sym.Assert(ok == want, "an integer is read exactly when it is minimal and fits the destination")
	if ok && want {
		sym.Assert(same, "the value read is the one encoded")
		sym.AssertEq(s, after, "exactly the rest is left")
	}
}

func C26_Optional() {
	sym.Bound("C26_Optional: optional integers: every inner contents of 0..4 (thorough 0..9) bytes, present, absent and followed by trailing bytes, into int64, uint8, int32 and big.Int with every default")
	nmax := 5
	if sym.Thorough() {
		nmax = 10
	}
	c := sym.Bytes("contents", sym.Choose("n", nmax))
	extra := sym.Bytes("extra", sym.Choose("extra", 2))
	itag := sym.Byte("itag")
	inner := append([]byte{itag, byte(len(c))}, c...)
	inner = append(inner, extra...)
	otag := asn1.Tag(0).ContextSpecific().Constructed()
	seen := sym.Byte("seen")
	in := append([]byte{seen, byte(len(inner))}, inner...)
	in0 := append([]byte(nil), in...)
	s := cryptobyte.String(in)
	i, iok, u, uok := wantInt(c)
	good := itag == 2 && len(extra) == 0
	present := seen == byte(otag)
	var ok, want, same bool
	if !sym.NoPanic("ReadOptionalASN1Integer", func() {
		switch sym.Choose("dest", 4) {
		case 0:
			def := sym.Int64("def")
			var r int64
			ok = s.ReadOptionalASN1Integer(&r, otag, def)
			want = good && iok
			same = (present && r == i) || (!present && r == def)
		case 1:
			def := sym.Byte("def")
			var r uint8
			ok = s.ReadOptionalASN1Integer(&r, otag, def)
			want = good && uok && u < 256
			same = (present && uint64(r) == u) || (!present && r == def)
		case 2:
			def := sym.Int32("def")
			var r int32
			ok = s.ReadOptionalASN1Integer(&r, otag, def)
			want = good && iok && i >= -1<<31 && i < 1<<31
			same = (present && int64(r) == i) || (!present && r == def)
		case 3:
			d := sym.Int64("def")
			def := big.NewInt(d)
			r := big.NewInt(3)
			ok = s.ReadOptionalASN1Integer(r, otag, def)
			want = good && ref.Minimal(c)
			if present {
				same = !ok || !iok || r.Cmp(big.NewInt(i)) == 0
			} else {
				same = r.Cmp(big.NewInt(d)) == 0 && def.Cmp(big.NewInt(d)) == 0
			}
		}
	}) {
		return
	}
	if !present {
		sym.Assert(ok && same, "an absent optional integer yields the default")
		sym.AssertEq(s, in0, "an absent optional integer consumes nothing")
		return
	}
	sym.Assert(ok == want, "a present optional integer is read exactly when it is one minimal integer that fits")
	if ok && want {
		sym.Assert(same, "the value read is the one encoded")
		sym.Assert(len(s) == 0, "exactly the rest is left")
	}
}

// ---- C27 ----

func C27_Write() {
	sym.Bound("C27_Write: both booleans, NULL, octet and bit strings of 0..3, 127, 128 bytes (thorough more) with all contents")
	ls := []int{0, 1, 2, 3, 126, 127, 128}
	if sym.Thorough() {
		ls = []int{0, 1, 2, 3, 4, 5, 125, 126, 127, 128, 129, 254, 255, 256, 300, 65535, 65536}
	}
	switch sym.Choose("op", 4) {
	case 0:
		v := sym.Bool("v")
		out := built("AddASN1Boolean", func(b *cryptobyte.Builder) { b.AddASN1Boolean(v) })
		exp := byte(0)
		if v {
			exp = 255
		}
		sym.AssertEq(out, []byte{1, 1, exp}, "a boolean is written in DER")
		in, rest := afterValue(out)
		s := cryptobyte.String(in)
		r := sym.Bool("dirty")
		sym.NoPanic("ReadASN1Boolean", func() {
			sym.Assert(s.ReadASN1Boolean(&r), "a written boolean can be read")
			sym.Assert(r == v, "a written boolean reads back")
			sym.AssertEq(s, rest, "exactly the rest is left")
		})
	case 1:
		out := built("AddASN1NULL", func(b *cryptobyte.Builder) { b.AddASN1NULL() })
		sym.AssertEq(out, []byte{5, 0}, "NULL is written in DER")
	case 2:
		v := sym.Bytes("v", ls[sym.Choose("len", len(ls))])
		out := built("AddASN1OctetString", func(b *cryptobyte.Builder) { b.AddASN1OctetString(v) })
		sym.AssertEq(out, ref.TLV(4, v), "an octet string is written in DER")
		in, rest := afterValue(out)
		s := cryptobyte.String(in)
		var r []byte
		sym.NoPanic("ReadASN1Bytes", func() {
			sym.Assert(s.ReadASN1Bytes(&r, asn1.OCTET_STRING), "a written octet string can be read")
			sym.AssertEq(r, v, "a written octet string reads back")
			sym.AssertEq(s, rest, "exactly the rest is left")
		})
	case 3:
		v := sym.Bytes("v", ls[sym.Choose("len", len(ls))])
		out := built("AddASN1BitString", func(b *cryptobyte.Builder) { b.AddASN1BitString(v) })
		sym.AssertEq(out, ref.TLV(3, append([]byte{0}, v...)), "a bit string is written in DER")
		in, rest := afterValue(out)
		s := cryptobyte.String(in)
		if sym.Choose("reader", 2) == 0 {
			var r encoding_asn1.BitString
			sym.NoPanic("ReadASN1BitString", func() {
				sym.Assert(s.ReadASN1BitString(&r), "a written bit string can be read")
				sym.AssertEq(r.Bytes, v, "a written bit string reads back")
				sym.Assert(r.BitLength == 8*len(v), "a written bit string has all its bits")
				sym.AssertEq(s, rest, "exactly the rest is left")
			})
		} else {
			var r []byte
			sym.NoPanic("ReadASN1BitStringAsBytes", func() {
				sym.Assert(s.ReadASN1BitStringAsBytes(&r), "a written bit string can be read as bytes")
				sym.AssertEq(r, v, "a written bit string reads back as bytes")
				sym.AssertEq(s, rest, "exactly the rest is left")
			})
		}
	}
}

func C27_Read() {
	sym.Bound("C27_Read: boolean, bit string and octet string readers and optional readers on every element of 0..4 content bytes (thorough 0..7), any tag")
	nmax := 5
	if sym.Thorough() {
		nmax = 8
	}
	c := sym.Bytes("contents", sym.Choose("n", nmax))
	tag := sym.Byte("tag")
	in := append([]byte{tag, byte(len(c))}, c...)
	after := sym.Bytes("after", 2)
	in = append(in, after...)
	in0 := append([]byte(nil), in...)
	s := cryptobyte.String(in)
	switch sym.Choose("op", 5) {
	case 0, 1:
		optional := sym.Choose("optional", 2) == 1
		var r, ok bool
		def := sym.Bool("def")
		r = sym.Bool("dirty")
		if !sym.NoPanic("ReadASN1Boolean", func() {
			if optional {
				ok = s.ReadOptionalASN1Boolean(&r, def)
			} else {
				ok = s.ReadASN1Boolean(&r)
			}
		}) {
			return
		}
		if optional && tag != 1 {
			sym.Assert(ok && r == def, "an absent boolean yields the default")
			sym.AssertEq(s, in0, "an absent boolean consumes nothing")
			return
		}
		want := tag == 1 && len(c) == 1 && (c[0] == 0 || c[0] == 255)
		sym.Assert(ok == want, "a boolean is read exactly when it is DER")
		if ok && want {
			sym.Assert(r == (c[0] == 255), "the boolean read is the one encoded")
			sym.AssertEq(s, after, "exactly the rest is left")
		}
	case 2:
		var r encoding_asn1.BitString
		var ok bool
		if !sym.NoPanic("ReadASN1BitString", func() { ok = s.ReadASN1BitString(&r) }) {
			return
		}
		want := tag == 3 && len(c) > 0 && c[0] <= 7
		if want && len(c) == 1 {
			want = c[0] == 0
		} else if want {
			last := c[len(c)-1]
			for i := byte(0); i < 7; i++ {
				if i < c[0] && last>>i&1 == 1 {
					want = false
				}
			}
		}
		sym.Assert(ok == want, "a bit string is read exactly when its padding is DER")
		if ok && want {
			sym.AssertEq(r.Bytes, c[1:], "the bits read are the ones encoded")
			sym.Assert(r.BitLength == 8*(len(c)-1)-int(c[0]), "the bit length excludes the padding")
			sym.AssertEq(s, after, "exactly the rest is left")
		}
	case 3:
		var r []byte
		var ok bool
		if !sym.NoPanic("ReadASN1BitStringAsBytes", func() { ok = s.ReadASN1BitStringAsBytes(&r) }) {
			return
		}
		want := tag == 3 && len(c) > 0 && c[0] == 0
		sym.Assert(ok == want, "a bit string is read as bytes exactly when it has whole bytes")
		if ok && want {
			sym.AssertEq(r, c[1:], "the bytes read are the ones encoded")
			sym.AssertEq(s, after, "exactly the rest is left")
		}
	case 4:
		otag := asn1.Tag(1).ContextSpecific().Constructed()
		var r []byte
		var ok, pres bool
		useP := sym.Choose("outPresent", 2) == 1
		if !sym.NoPanic("ReadOptionalASN1OctetString", func() {
			if useP {
				ok = s.ReadOptionalASN1OctetString(&r, &pres, otag)
			} else {
				ok = s.ReadOptionalASN1OctetString(&r, nil, otag)
			}
		}) {
			return
		}
		present := tag == byte(otag)
		if !present {
			sym.Assert(ok && len(r) == 0 && !pres, "an absent octet string is no error")
			sym.AssertEq(s, in0, "an absent octet string consumes nothing")
			return
		}
		t, hl, cl, good := ref.Header(c)
		want := good && t == 4 && hl+cl == len(c)
		sym.Assert(ok == want, "an optional octet string is read exactly when it wraps one octet string")
		if ok && want {
			sym.AssertEq(r, c[sym.Concrete(hl):], "the octets read are the ones encoded")
			sym.Assert(!useP || pres, "presence is reported")
			sym.AssertEq(s, after, "exactly the rest is left")
		}
	}
}

func arc(v uint64) []byte {
	n := 1
	for x := v >> 7; x != 0; x >>= 7 {
		n++
	}
	r := make([]byte, n)
	for i := range r {
		r[n-1-i] = byte(v>>(7*uint(i))) & 127
		if i > 0 {
			r[n-1-i] |= 128
		}
	}
	return r
}

func C27_OIDWrite() {
	sym.Bound("C27_OIDWrite: object identifiers of 0..3 (thorough 0..4) arcs, every arc any int value")
	nmax := 4
	if sym.Thorough() {
		nmax = 5
	}
	n := sym.Choose("arcs", nmax)
	oid := make(encoding_asn1.ObjectIdentifier, n)
	for i := range oid {
		oid[i] = sym.Int("arc")
	}
	b := cryptobyte.NewBuilder(nil)
	var out []byte
	var err error
	if !sym.NoPanic("AddASN1ObjectIdentifier", func() {
		b.AddASN1ObjectIdentifier(oid)
		out, err = b.Bytes()
	}) {
		return
	}
	valid := n >= 2
	for _, a := range oid {
		if a < 0 {
			valid = false
		}
	}
	if valid {
		valid = oid[0] == 0 && oid[1] < 40 || oid[0] == 1 && oid[1] < 40 || oid[0] == 2
	}
	if !valid {
		sym.Assert(err != nil, "an invalid object identifier makes the builder fail")
		return
	}
	if oid[0] == 2 && oid[1] > 1<<63-1-80 {
		return // does not fit when packed: only "no panic" is required
	}
	sym.Assert(err == nil, "a valid object identifier is written")
	if err != nil {
		return
	}
	exp := arc(uint64(oid[0])*40 + uint64(oid[1]))
	for _, a := range oid[2:] {
		exp = append(exp, arc(uint64(a))...)
	}
	sym.AssertEq(out, ref.TLV(6, exp), "an object identifier is written in DER")
	in, rest := afterValue(out)
	s := cryptobyte.String(in)
	var r encoding_asn1.ObjectIdentifier
	sym.NoPanic("ReadASN1ObjectIdentifier", func() {
		ok := s.ReadASN1ObjectIdentifier(&r)
		sym.Assert(ok, "a written object identifier can be read")
		if ok {
			same := len(r) == len(oid)
			if same {
				for i := range r {
					same = same && r[i] == oid[i]
				}
			}
			sym.Assert(same, "a written object identifier reads back")
			sym.AssertEq(s, rest, "exactly the rest is left")
		}
	})
}

func C27_OIDRead() {
	sym.Bound("C27_OIDRead: every object identifier contents of 0..4 bytes (thorough 0..6) and single arcs of 8..11 bytes")
	nmax := 5
	if sym.Thorough() {
		nmax = 7
	}
	n := sym.Choose("n", nmax+4)
	long := n >= nmax
	if long {
		n = 8 + n - nmax
	}
	c := sym.Bytes("contents", n)
	if long {
		for i := 0; i < n-1; i++ {
			sym.Assume(c[i] >= 128)
		}
	}
	in := append([]byte{6, byte(n)}, c...)
	after := sym.Bytes("after", 1)
	in = append(in, after...)
	s := cryptobyte.String(in)
	var r encoding_asn1.ObjectIdentifier
	var ok bool
	if !sym.NoPanic("ReadASN1ObjectIdentifier", func() { ok = s.ReadASN1ObjectIdentifier(&r) }) {
		return
	}
	// reference
	var arcs []int
	valid := n > 0
	v, start, over := uint64(0), true, false
	for i := 0; i < n && valid; i++ {
		if start && c[i] == 128 {
			valid = false
			break
		}
		if v >= 1<<56 {
			over = true
		}
		v = v<<7 | uint64(c[i]&127)
		start = false
		if c[i] < 128 {
			if over {
				valid = false
				break
			}
			if len(arcs) == 0 {
				switch {
				case v < 40:
					arcs = append(arcs, 0, int(v))
				case v < 80:
					arcs = append(arcs, 1, int(v-40))
				default:
					arcs = append(arcs, 2, int(v-80))
				}
			} else {
				arcs = append(arcs, int(v))
			}
			v, start, over = 0, true, false
		}
	}
	if !start {
		valid = false
	}
	sym.Assert(ok == valid, "an object identifier is read exactly when its arcs are minimal and fit an int")
	if ok && valid {
		same := len(r) == len(arcs)
		if same {
			for i := range r {
				same = same && r[i] == arcs[i]
			}
		}
		sym.Assert(same, "the arcs read are the ones encoded")
		sym.AssertEq(s, after, "exactly the rest is left")
	}
}
