package h

import (
	"errors"

	"gmharness/ref"
	"gmharness/sym"

	"github.com/ZZMarquis/gm/cryptobyte"
	"github.com/ZZMarquis/gm/cryptobyte/asn1"
)

// node is one builder call.
type node struct {
	op   int // 0..3 AddUint8..32, 4 AddBytes, 5..8 length prefixed 1..4, 9 ASN.1, 10 AddValue
	v    uint32
	b    []byte
	tag  byte
	kids []node
}

// apply makes the calls.
func apply(b *cryptobyte.Builder, ns []node) {
	for i := range ns {
		n := &ns[i]
		f := func(c *cryptobyte.Builder) { apply(c, n.kids) }
		switch n.op {
		case 0:
			b.AddUint8(uint8(n.v))
		case 1:
			b.AddUint16(uint16(n.v))
		case 2:
			b.AddUint24(n.v)
		case 3:
			b.AddUint32(n.v)
		case 4:
			b.AddBytes(n.b)
		case 5:
			b.AddUint8LengthPrefixed(f)
		case 6:
			b.AddUint16LengthPrefixed(f)
		case 7:
			b.AddUint24LengthPrefixed(f)
		case 8:
			b.AddUint32LengthPrefixed(f)
		case 9:
			b.AddASN1(asn1.Tag(n.tag), f)
		case 10:
			b.AddValue(val{n.kids, nil})
		}
	}
}

type val struct {
	ns  []node
	err error
}

func (v val) Marshal(b *cryptobyte.Builder) error {
	apply(b, v.ns)
	return v.err
}

func putBE(out []byte, v uint32, k int) []byte {
	for i := k - 1; i >= 0; i-- {
		out = append(out, byte(v>>(8*uint(i))))
	}
	return out
}

// expect is what the calls must produce; ok is false when a length does not fit its prefix.
func expect(ns []node) (out []byte, ok bool) {
	ok = true
	for i := range ns {
		n := &ns[i]
		switch {
		case n.op <= 3:
			out = putBE(out, n.v, n.op+1)
		case n.op == 4:
			out = append(out, n.b...)
		default:
			c, cok := expect(n.kids)
			if !cok {
				return nil, false
			}
			switch n.op {
			case 9:
				out = append(out, ref.TLV(n.tag, c)...)
			case 10:
				out = append(out, c...)
			default:
				k := n.op - 4
				if k < 4 && uint64(len(c))>>(8*uint(k)) != 0 {
					return nil, false
				}
				out = append(putBE(out, uint32(len(c)), k), c...)
			}
		}
	}
	return out, ok
}

// tree picks calls: at most budget of them, nested at most depth deep.
func tree(depth int, budget *int, sizes []int) []node {
	var ns []node
	for *budget > 0 {
		nops := 4
		if depth == 0 {
			nops = 3
		}
		op := sym.Choose("op", nops)
		if op == 0 {
			break
		}
		*budget--
		switch op {
		case 1:
			k := sym.Choose("width", 4)
			ns = append(ns, node{op: k, v: sym.Uint32("v")})
		case 2:
			ns = append(ns, node{op: 4, b: sym.Bytes("b", sizes[sym.Choose("size", len(sizes))])})
		case 3:
			k := sym.Choose("kind", 6)
			n := node{op: 5 + k}
			if n.op == 9 {
				n.tag = sym.Byte("tag")
				sym.Assume(n.tag&31 != 31)
			}
			n.kids = tree(depth-1, budget, sizes)
			ns = append(ns, n)
		}
	}
	return ns
}

func C28_Trees() {
	sym.Bound("C28_Trees: every sequence of at most 3 calls (thorough 4) nested at most 3 deep, values and contents free, byte strings of 0, 1 or 3 bytes, builder starting empty or on a buffer with 2 bytes")
	budget := 3
	if sym.Thorough() {
		budget = 4
	}
	ns := tree(3, &budget, []int{0, 1, 3})
	var pre []byte
	if sym.Choose("pre", 2) == 1 {
		pre = sym.Bytes("pre", 2)
	}
	b := cryptobyte.NewBuilder(append([]byte(nil), pre...))
	exp, ok := expect(ns)
	var out []byte
	var err error
	if !sym.NoPanic("Builder", func() {
		apply(b, ns)
		out, err = b.Bytes()
	}) {
		return
	}
	sym.Assert((err == nil) == ok, "building succeeds exactly when every length fits its prefix")
	if err == nil && ok {
		sym.AssertEq(out, append(append([]byte(nil), pre...), exp...), "the output is every value in order with exact length prefixes")
		sym.AssertEq(b.BytesOrPanic(), out, "BytesOrPanic agrees with Bytes")
	}
}

// C28_Sizes has contents around the sizes at which a prefix changes or overflows.
func C28_Sizes() {
	sym.Bound("C28_Sizes: one length-prefixed section or element of each kind whose contents have 0, 126..129, 253..257, 65533..65537 bytes (thorough also 70000), alone, nested in each kind, and followed by a byte")
	sizes := []int{0, 1, 126, 127, 128, 129, 253, 254, 255, 256, 257, 65533, 65534, 65535, 65536, 65537}
	if sym.Thorough() {
		sizes = append(sizes, 70000, 131072)
	}
	size := sizes[sym.Choose("size", len(sizes))]
	body := make([]byte, size)
	for i := range body {
		body[i] = byte(i * 7)
	}
	copy(body, sym.Bytes("head", min(size, 4)))
	if size > 4 {
		copy(body[size-4:], sym.Bytes("end", 4))
	}
	kind := sym.Choose("kind", 5)
	ns := []node{{op: 5 + kind, tag: 48, kids: []node{{op: 4, b: body}}}}
	switch outer := sym.Choose("outer", 7); outer {
	case 0:
	case 6:
		ns = append(ns, node{op: 0, v: sym.Uint32("next")})
	default:
		ns = []node{{op: 4 + outer, tag: 49, kids: append([]node{{op: 0, v: 5}}, append(ns, node{op: 1, v: sym.Uint32("after")})...)}}
	}
	exp, ok := expect(ns)
	b := cryptobyte.NewBuilder(nil)
	var out []byte
	var err error
	if !sym.NoPanic("Builder", func() {
		apply(b, ns)
		out, err = b.Bytes()
	}) {
		return
	}
	sym.Assert((err == nil) == ok, "building succeeds exactly when every length fits its prefix")
	if err == nil && ok {
		sym.AssertEq(out, exp, "the output is every value in order with exact length prefixes")
	}
}

// ---- C29 ----

func C29_Fixed() {
	sym.Bound("C29_Fixed: every sequence of at most 3 calls (thorough 4) nested at most 2 deep (thorough 3), byte strings of 0, 1, 3 bytes; fixed buffers with 0 or 1 bytes used and room for 0..9 (thorough 0..12) more, inside a larger array")
	budget, depth, room := 3, 2, 10
	if sym.Thorough() {
		budget, depth, room = 4, 3, 13
	}
	ns := tree(depth, &budget, []int{0, 1, 3})
	fixedAgainst(ns, sym.Choose("used", 2), sym.Choose("room", room))
}

func C29_Long() {
	sym.Bound("C29_Long: an ASN.1 element of 126..129 or 255..257 content bytes, alone or nested and followed by a byte, in fixed buffers around the size needed")
	size := []int{126, 127, 128, 129, 255, 256, 257}[sym.Choose("size", 7)]
	body := make([]byte, size)
	copy(body, sym.Bytes("head", 2))
	ns := []node{{op: 9, tag: 48, kids: []node{{op: 4, b: body}}}}
	switch sym.Choose("shape", 4) {
	case 1:
		ns = append(ns, node{op: 0, v: sym.Uint32("next")})
	case 2:
		ns = []node{{op: 9, tag: 49, kids: ns}}
	case 3:
		ns = []node{{op: 6, kids: append(ns, node{op: 0, v: sym.Uint32("next")})}}
	}
	exp, _ := expect(ns)
	room := len(exp) - 6 + sym.Choose("room", 9)
	fixedAgainst(ns, sym.Choose("used", 2), room)
}

func fixedAgainst(ns []node, used, room int) {
	mem := sym.Bytes("mem", 2+used+room+2)
	m0 := append([]byte(nil), mem...)
	buf := mem[2 : 2+used : 2+used+room]
	b := cryptobyte.NewFixedBuilder(buf)
	exp, ok := expect(ns)
	var out []byte
	var err error
	if !sym.NoPanic("fixed Builder", func() {
		apply(b, ns)
		out, err = b.Bytes()
	}) {
		return
	}
	ok = ok && len(exp) <= room
	sym.Assert((err == nil) == ok, "a fixed builder succeeds exactly when everything fits")
	sym.AssertEq(mem[:2], m0[:2], "nothing is written before the buffer")
	sym.AssertEq(mem[2+used+room:], m0[2+used+room:], "nothing is written behind the buffer")
	sym.AssertEq(mem[2:2+used], m0[2:2+used], "what the buffer held is kept")
	if err == nil && ok {
		want := append(append([]byte(nil), m0[2:2+used]...), exp...)
		sym.AssertEq(out, want, "a fixed builder returns what a growing builder would")
		sym.AssertEq(mem[2:2+len(want)], want, "the result is stored in the given buffer")
		if len(out) > 0 && len(want) > 0 {
			out[len(out)-1] ^= 255
			sym.Assert(mem[2+len(want)-1] == out[len(out)-1], "the result is the given buffer itself")
		}
	} else {
		sym.Assert(len(out) == 0, "no partial contents are returned")
	}
}

// ---- C30 ----

var errA, errB = errors.New("first"), errors.New("second")

// fail makes b fail in one of several ways; the error is returned if it is known beforehand.
func fail(b *cryptobyte.Builder, kind int) error {
	switch kind {
	case 0:
		b.AddValue(val{nil, errA})
		return errA
	case 1: // contents too long for the prefix
		b.AddUint8LengthPrefixed(func(c *cryptobyte.Builder) { c.AddBytes(make([]byte, 256)) })
	case 2:
		b.AddASN1(asn1.Tag(31), func(c *cryptobyte.Builder) {})
	case 3:
		b.AddASN1ObjectIdentifier([]int{3, 1})
	case 4:
		b.AddASN1(asn1.SEQUENCE, func(c *cryptobyte.Builder) { panic(cryptobyte.BuildError{Err: errA}) })
		return errA
	case 5:
		b.AddUint16LengthPrefixed(func(c *cryptobyte.Builder) { c.AddValue(val{nil, errA}) })
		return errA
	case 6:
		b.MarshalASN1(func() {})
	case 7:
		b.AddUint8LengthPrefixed(func(c *cryptobyte.Builder) {
			c.AddASN1(asn1.SEQUENCE, func(d *cryptobyte.Builder) { d.AddASN1ObjectIdentifier([]int{1}) })
			c.AddValue(val{nil, errB})
		})
	}
	return nil
}

// more makes one further call.
func more(b *cryptobyte.Builder, kind int) {
	switch kind {
	case 0:
		b.AddUint8(sym.Byte("x"))
	case 1:
		b.AddUint32(sym.Uint32("x"))
	case 2:
		b.AddBytes(sym.Bytes("x", 3))
	case 3:
		b.AddUint8LengthPrefixed(func(c *cryptobyte.Builder) { c.AddUint8(1) })
	case 4:
		b.AddASN1(asn1.SEQUENCE, func(c *cryptobyte.Builder) { c.AddUint8(1) })
	case 5:
		b.AddValue(val{nil, errB})
	case 6:
		b.AddASN1(asn1.Tag(31), func(c *cryptobyte.Builder) {})
	case 7:
		b.AddASN1Boolean(true)
	case 8:
		b.AddASN1NULL()
	case 9:
		b.AddASN1ObjectIdentifier([]int{1})
	case 10:
		b.AddUint16LengthPrefixed(func(c *cryptobyte.Builder) { panic(cryptobyte.BuildError{Err: errB}) })
	case 11:
		b.MarshalASN1(func() {})
	case 12:
		b.AddASN1Int64(sym.Int64("x"))
	case 13:
		b.AddASN1OctetString(sym.Bytes("x", 1))
	case 14:
		b.AddUint16(sym.Uint16("x"))
	case 15:
		b.AddUint24(sym.Uint32("x"))
	case 16:
		b.AddASN1BitString(sym.Bytes("x", 1))
	case 17:
		b.AddUint24LengthPrefixed(func(c *cryptobyte.Builder) { c.AddUint8(1) })
	case 18:
		b.AddUint32LengthPrefixed(func(c *cryptobyte.Builder) { c.AddValue(val{nil, errB}) })
	case 19:
		b.AddASN1Enum(sym.Int64("x"))
	case 20:
		b.AddASN1Uint64(sym.Uint64("x"))
	}
}

func C30_Sticky() {
	sym.Bound("C30_Sticky: 8 ways of failing, each followed by any 2 (thorough 3) of 21 further calls, on growing and fixed builders, at top level or inside a continuation")
	k := 2
	if sym.Thorough() {
		k = 3
	}
	mem := make([]byte, 4, 700)
	var b *cryptobyte.Builder
	if sym.Choose("fixed", 2) == 1 {
		b = cryptobyte.NewFixedBuilder(mem[:0])
	} else {
		b = cryptobyte.NewBuilder(nil)
	}
	kind := sym.Choose("failure", 8)
	ops := make([]int, k)
	for i := range ops {
		ops[i] = sym.Choose("then", 21)
	}
	var err0, err1, known error
	var out0, out1 []byte
	var pv any
	var pd bool
	if !sym.NoPanic("failing Builder", func() {
		b.AddUint8(7)
		if sym.Choose("inside", 2) == 1 {
			b.AddUint32LengthPrefixed(func(c *cryptobyte.Builder) {
				c.AddUint8(7)
				known = fail(c, kind)
				_, err0 = c.Bytes()
				for _, o := range ops {
					more(c, o)
				}
			})
			out0 = nil
			if kind == 4 { // the panic unwound the whole section
				err0, known = errA, errA
			}
		} else {
			known = fail(b, kind)
			out0, err0 = b.Bytes()
			for _, o := range ops {
				more(b, o)
			}
		}
		out1, err1 = b.Bytes()
		pd, pv = sym.Catch(func() { b.BytesOrPanic() })
	}) {
		return
	}
	sym.Assert(err0 != nil, "the failure is reported")
	if known != nil {
		sym.Assert(err0 == known, "the error is the one that occurred")
	}
	sym.Assert(err1 == err0, "the first error sticks")
	sym.Assert(len(out0) == 0 && len(out1) == 0, "a failed builder yields no bytes")
	pe, isErr := pv.(error)
	sym.Assert(pd && isErr && pe == err0, "BytesOrPanic panics with the first error")
}

type weird struct{ x int }

func nested(b *cryptobyte.Builder, depth int, kinds []int, f func(c *cryptobyte.Builder)) {
	if depth == 0 {
		f(b)
		return
	}
	g := func(c *cryptobyte.Builder) {
		c.AddUint8(1)
		nested(c, depth-1, kinds[1:], f)
		c.AddUint8(2)
	}
	switch kinds[0] {
	case 0:
		b.AddUint8LengthPrefixed(g)
	case 1:
		b.AddASN1(asn1.SEQUENCE, g)
	case 2:
		b.AddUint24LengthPrefixed(g)
	}
}

func C30_Unwind() {
	sym.Bound("C30_Unwind: a BuildError or another panic at nesting depth 1..4 (thorough 1..5) of mixed kinds of sections, directly or after another section of the same builder has succeeded; afterwards the builder, or another one, is used again")
	dmax := 4
	if sym.Thorough() {
		dmax = 5
	}
	depth := sym.Choose("depth", dmax) + 1
	kinds := make([]int, depth)
	for i := range kinds {
		kinds[i] = sym.Choose("kind", 3)
	}
	what := sym.Choose("panic", 5)
	b := cryptobyte.NewBuilder(nil)
	var thrown any
	switch what {
	case 0:
		thrown = cryptobyte.BuildError{Err: errA}
	case 1:
		thrown = weird{5}
	case 2:
		thrown = errA
	case 3:
		thrown = "text"
	case 4:
		thrown = &cryptobyte.BuildError{Err: errA} // a pointer is not a BuildError
	}
	after := 0
	prior := sym.Choose("prior section", 3)
	pd, pv := sym.Catch(func() {
		b.AddUint8(9)
		if prior == 1 {
			b.AddUint8LengthPrefixed(func(c *cryptobyte.Builder) { c.AddUint8(1) })
		}
		nested(b, depth, kinds, func(c *cryptobyte.Builder) {
			c.AddUint16(3)
			if prior == 2 {
				c.AddASN1(asn1.SEQUENCE, func(c *cryptobyte.Builder) { c.AddUint8(1) })
			}
			panic(thrown)
		})
		after = 1
	})
	if what != 0 {
		sym.Assert(pd && pv == thrown, "another panic propagates unchanged")
		return
	}
	sym.Assert(!pd && after == 1, "a BuildError panic does not escape")
	if pd {
		return
	}
	out, err := b.Bytes()
	sym.Assert(err == errA && len(out) == 0, "the BuildError's error is what Bytes reports")
	b.AddUint8(1)
	pd, pv = sym.Catch(func() {
		b.AddASN1(asn1.SEQUENCE, func(c *cryptobyte.Builder) { panic(cryptobyte.BuildError{Err: errB}) })
	})
	sym.Assert(!pd, "a failed builder ignores further sections")
	_, err = b.Bytes()
	sym.Assert(err == errA, "the first error sticks")
}

// C30_Value: marshalling values and their errors.
func C30_Value() {
	sym.Bound("C30_Value: values whose Marshal writes 0..2 calls and then returns an error or none, at top level or inside a section; MarshalASN1 of an integer and of an unsupported value")
	budget := 2
	ns := tree(1, &budget, []int{0, 2})
	bad := sym.Choose("bad", 2) == 1
	v := val{ns, nil}
	if bad {
		v.err = errA
	}
	b := cryptobyte.NewBuilder(nil)
	var out []byte
	var err error
	inside := sym.Choose("inside", 2) == 1
	if !sym.NoPanic("AddValue", func() {
		if inside {
			b.AddUint16LengthPrefixed(func(c *cryptobyte.Builder) { c.AddValue(v) })
		} else {
			b.AddValue(v)
		}
		out, err = b.Bytes()
	}) {
		return
	}
	if bad {
		sym.Assert(err == errA && len(out) == 0, "a value that fails to marshal makes the builder fail with its error")
		return
	}
	exp, ok := expect(ns)
	if inside {
		exp = append(putBE(nil, uint32(len(exp)), 2), exp...)
	}
	sym.Assert((err == nil) == ok, "a value that marshals is no failure")
	if err == nil && ok {
		sym.AssertEq(out, exp, "a value's bytes are written in place")
	}
}
