package h

import (
	"errors"
	"fmt"
	"gmharness/sym"
	"sort"
	"strings"
	"sync"
)

// Self tests of the engine: the same Go features run in the engine and natively; observed values must agree.

type shape interface{ area() int }
type sq struct{ a int }
type rect struct{ a, b int }

func (s sq) area() int    { return s.a * s.a }
func (r *rect) area() int { return r.a * r.b }

type base struct{ n int }

func (b *base) inc(k int) int { b.n += k; return b.n }

type derived struct {
	base
	name string
}

func deferOrder() (s string) {
	defer func() { s += "c" }()
	defer func() { s += "b" }()
	s = "a"
	return s + "x"
}

func recovered() (n int, err error) {
	defer func() {
		if r := recover(); r != nil {
			n = 7
			err = fmt.Errorf("rec")
		}
	}()
	var p []int
	return p[3], nil
}

func rePanic() (out string) {
	defer func() { out += "|" + fmt.Sprint(recover() != nil) }()
	defer func() {
		r := recover()
		out += "first"
		panic(r)
	}()
	panic("x")
}

func panicInDefer() (out string) {
	defer func() {
		r := recover()
		out += r.(string)
	}()
	defer func() { out += "ran;" }()
	defer func() { panic("second") }()
	out = "start;"
	return
}

func generic[T int | uint8](xs []T) (t T) {
	for _, x := range xs {
		t += x
	}
	return
}

func SELF_Lang() {
	s := ""
	add := func(f string, a ...int) {
		s += f
		for _, x := range a {
			s += " " + itoa(x)
		}
		s += ";"
	}
	var sh []shape
	sh = append(sh, sq{3}, &rect{4, 5})
	for i, x := range sh {
		add("area", i, x.area())
		switch y := x.(type) {
		case sq:
			add("sq", y.a)
		case *rect:
			add("rect", y.b)
		}
	}
	d := &derived{base{1}, "d"}
	f := d.inc
	f(4)
	add("inc", d.inc(2), d.n)
	add(deferOrder())
	n, err := recovered()
	add("rec", n)
	if err == nil {
		add("bad")
	}
	add(panicInDefer())
	p, v := sym.Catch(func() { panic("hello") })
	if p {
		add(v.(string))
	}
	p, v = sym.Catch(func() {
		defer func() {}()
		var m map[string]int
		m["a"] = 1
	})
	if p {
		_, ok := v.(error)
		add("nilmap", b2i(ok))
	}
	m := map[string]int{"a": 1, "b": 2}
	m["c"] = 3
	delete(m, "a")
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	add(strings.Join(ks, ","), len(m), m["b"], m["zz"])
	a := [4]int{1, 2, 3, 4}
	b := a
	b[0] = 9
	sl := a[1:3]
	sl = append(sl, 77)
	add("arr", a[0], b[0], a[3], len(sl), cap(sl))
	sl2 := sl[:1:1]
	sl2 = append(sl2, 5)
	add("arr", a[2], sl2[1])
	copy(sl, sl[1:])
	add("copy", sl[0], sl[1])
	add("gen", generic([]int{1, 2, 3}), int(generic([]uint8{200, 100})))
	for i, r := range "héy" {
		add("r", i, int(r))
	}
	x := int8(-128)
	y := uint8(200)
	add("conv", int(-x), int(y+100), int(int8(y)), int(uint16(x)), int(y>>3), int(x>>2))
	z := -7
	add("div", z/2, z%2, z>>1, z&3, z&^3)
	var e1 error = errors.New("q")
	var e2 error
	add("iface", b2i(e1 == e1), b2i(e2 == nil))
	bs := []byte("abc")
	bs = append(bs, "def"...)
	add(string(bs) + fmt.Sprintf("")[0:0])
	func() {
		defer func() {
			r := recover()
			add("idx", b2i(r != nil))
		}()
		k := len(bs)
		_ = bs[k]
	}()
outer:
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if j == 2 {
				continue outer
			}
			if i == 2 {
				break outer
			}
			add("l", i, j)
		}
	}
	type pt struct{ x, y int }
	mp := map[pt]string{{1, 2}: "p"}
	add(mp[pt{1, 2}])
	ch := make([]func() int, 0)
	for i := 0; i < 3; i++ {
		ch = append(ch, func() int { return i })
	}
	add("clo", ch[0](), ch[1](), ch[2]())
	sym.Observe("s", []byte(s))
	sym.Assert(len(s) > 0, "s")
}

func SELF_Sym() {
	x := sym.Uint32("x")
	y := sym.Uint32("y")
	k := sym.Byte("k")
	sym.Observe("add", be32(x+y))
	sym.Observe("sub", be32(x-y))
	sym.Observe("mul", be32(x*y))
	sym.Observe("shl", be32(x<<(k&63)))
	sym.Observe("shr", be32(x>>(k&63)))
	sym.Observe("sar", be32(uint32(int32(x)>>(k&63))))
	sym.Observe("and", be32(x&^y|7))
	sym.Observe("xor", be32(x^y))
	if y != 0 {
		sym.Observe("div", be32(x/y))
		sym.Observe("rem", be32(x%y))
		if !(int32(y) == -1) {
			sym.Observe("sdiv", be32(uint32(int32(x)/int32(y))))
			sym.Observe("srem", be32(uint32(int32(x)%int32(y))))
		}
	}
	sym.Observe("lt", []byte{byte(b2i(x < y)), byte(b2i(int32(x) < int32(y))), byte(b2i(x <= y)), byte(b2i(int32(x) >= int32(y)))})
	z := int64(int32(x))
	sym.Observe("sext", be32(uint32(z>>16)))
	tab := [8]byte{3, 1, 4, 1, 5, 9, 2, 6}
	sym.Observe("tab", []byte{tab[k&7]})
	tab[k>>5] = 0xaa
	sym.Observe("tab2", tab[:])
	sym.Assert(x+y == y+x, "comm")
	sym.Assert((x^y)+2*(x&y) == x+y, "identity")
}

func be32(x uint32) []byte { return []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)} }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func itoa(x int) string {
	if x < 0 {
		return "-" + itoa(-x)
	}
	if x < 10 {
		return string(rune('0' + x))
	}
	return itoa(x/10) + string(rune('0'+x%10))
}

type named int

func (n named) String() string { return "n" + itoa(int(n)) }

// Formatting and pools.
func SELF_Format() {
	b := sym.Bytes("b", 3)
	k := sym.Byte("k")
	s := string(b)
	sym.Observe("hex", []byte(fmt.Sprintf("%x|%X|%02x|%s", b, s, k, b)))
	sym.Observe("int", []byte(fmt.Sprintf("%d %4d %04x %v %v %%", k, -7, 255, true, k > 3)))
	sym.Observe("str", []byte(fmt.Sprint(s, 1, 2, "x", named(4), nil, errors.New("e"))))
	sym.Observe("ln", []byte(fmt.Sprintln("a", 3)))
	p := &sync.Pool{New: func() interface{} { return new([2]byte) }}
	a := p.Get().(*[2]byte)
	sym.Observe("fresh", a[:])
	a[1] = k
	sym.Observe("sum", []byte{a[0], a[1]})
	sym.Assert(fmt.Sprintf("%x", []byte{k}) == fmt.Sprintf("%02x", k), "hex")
}
