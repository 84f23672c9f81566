package h

import (
	"gmharness/sym"

	"github.com/ZZMarquis/gm/util"
)

// ---- C08 ----

func C08_PKCS5() {
	sym.Bound("C08_PKCS5: every input length 0..40 (thorough 0..70) with block sizes 1..40 plus 255, and block size 255/256-boundary inputs; all contents; spare capacity 0, 1, 40 and 300")
	nmax := 41
	if sym.Thorough() {
		nmax = 71
	}
	n := sym.Choose("len", nmax)
	bs := sym.Choose("bs", 41) + 1
	if bs == 41 {
		bs = 255
	}
	spare := []int{0, 1, 40, 300}[sym.Choose("spare", 4)]
	mem := sym.Bytes("mem", n+spare)
	m0 := append([]byte(nil), mem...)
	in := mem[:n]
	var out []byte
	if !sym.NoPanic("PKCS5Padding", func() { out = util.PKCS5Padding(in, bs) }) {
		return
	}
	sym.AssertEq(mem, m0, "padding writes nothing through the caller's slice")
	sym.Assert(len(out) > n && len(out) <= n+bs && len(out)%bs == 0, "one to one full block of padding, whole blocks")
	if len(out) <= n {
		return
	}
	sym.Observe("out", out)
	sym.AssertEq(out[:n], m0[:n], "the result starts with the input")
	for i := n; i < len(out); i++ {
		sym.Assert(int(out[i]) == len(out)-n, "every padding byte is the padding length")
	}
	var back []byte
	if sym.NoPanic("PKCS5UnPadding", func() { back = util.PKCS5UnPadding(out) }) {
		sym.AssertEq(back, m0[:n], "un-padding restores the input")
	}
}

func C08_Zero() {
	sym.Bound("C08_Zero: input lengths 0..40 (thorough 0..70), block sizes 1..40 and 300; all contents; spare capacity 0, 1, 40 and 300")
	nmax := 41
	if sym.Thorough() {
		nmax = 71
	}
	n := sym.Choose("len", nmax)
	bs := sym.Choose("bs", 41) + 1
	if bs == 41 {
		bs = 300
	}
	spare := []int{0, 1, 40, 300}[sym.Choose("spare", 4)]
	mem := sym.Bytes("mem", n+spare)
	m0 := append([]byte(nil), mem...)
	in := mem[:n]
	var out []byte
	if !sym.NoPanic("ZeroPadding", func() { out = util.ZeroPadding(in, bs) }) {
		return
	}
	sym.AssertEq(mem, m0, "padding writes nothing through the caller's slice")
	sym.Assert(len(out) > n && len(out) <= n+bs && len(out)%bs == 0, "one to one full block of padding, whole blocks")
	if len(out) <= n {
		return
	}
	sym.Observe("out", out)
	sym.AssertEq(out[:n], m0[:n], "the result starts with the input")
	sym.AssertEq(out[n:], make([]byte, len(out)-n), "every padding byte is zero")
	var back []byte
	if sym.NoPanic("UnZeroPadding", func() { back = util.UnZeroPadding(out, len(out)-n) }) {
		sym.AssertEq(back, m0[:n], "un-padding restores the input")
	}
}

func C08_NilInput() {
	bs := sym.Choose("bs", 255) + 1
	sym.Bound("C08_NilInput: nil and empty input, block sizes 1..255")
	for _, in := range [][]byte{nil, {}} {
		out := util.PKCS5Padding(in, bs)
		sym.Assert(len(out) == bs, "empty input pads to one block")
		if len(out) == bs {
			sym.Assert(int(out[0]) == bs && int(out[bs-1]) == bs, "padding bytes are the length")
		}
		back := util.PKCS5UnPadding(out)
		sym.Assert(len(back) == 0, "un-padding restores the empty input")
		z := util.ZeroPadding(in, bs)
		sym.AssertEq(z, make([]byte, bs), "zero padding of the empty input")
	}
}
