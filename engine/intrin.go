package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Intrinsic func(w *World, args []Val) Val

var intrinsics = map[string]Intrinsic{}
var pureIntr = map[string]bool{}

// packages whose initialisers are never run
var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/poll": true, "net": false, "reflect": true, "internal/godebug": true, "internal/cpu": true, "crypto/internal/fips140/check": true, "testing": true, "flag": true}

func reg(name string, f Intrinsic) { intrinsics[name] = f }
func regPure(name string, f Intrinsic) {
	intrinsics[name] = f
	pureIntr[name] = true
}

func lookupIntrinsic(f *ssa.Function) Intrinsic {
	n := f.String()
	if i, ok := intrinsics[n]; ok {
		return i
	}
	if o := f.Origin(); o != nil && o != f {
		if i, ok := intrinsics[o.String()]; ok {
			return i
		}
	}
	pkg := f.Pkg
	if o := f.Origin(); pkg == nil && o != nil {
		pkg = o.Pkg
	}
	if pkg != nil {
		if i, ok := pkgIntr[pkg.Pkg.Path()]; ok && f.Synthetic != "package initializer" {
			return i(f)
		}
	}
	return nil
}

var pkgIntr = map[string]func(f *ssa.Function) Intrinsic{}

func pureIntrinsic(f *ssa.Function) bool {
	if pureIntr[f.String()] {
		return true
	}
	return false
}

const symPkg = "gmharness/sym."

var u8 = scalar{8, false, true, false}
var u64s = scalar{64, false, true, false}

func (w *World) inputName(s string) string {
	n := w.inputIdx[s]
	w.inputIdx[s] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", s, n+1)
	}
	return s
}

func (w *World) symUint(name string, width int) *Term {
	n := w.inputName(name)
	t := w.m.Var(width, n)
	w.inputs = append(w.inputs, InputRec{Name: n, Kind: "uint", W: width, T: []*Term{t}})
	return t
}

func regUint(fn string, width int) {
	reg(symPkg+fn, func(w *World, a []Val) Val {
		return Val{P: w.symUint(w.mustStr(a[0]), width)}
	})
}

func init() {
	reg(symPkg+"Bytes", func(w *World, a []Val) Val {
		name := w.inputName(w.mustStr(a[0]))
		n := w.concInt(a[1])
		e := make([]Val, n)
		ts := make([]*Term, n)
		for i := range e {
			t := w.m.Var(8, fmt.Sprintf("%s[%d]", name, i))
			ts[i] = t
			e[i] = Val{P: t}
		}
		w.inputs = append(w.inputs, InputRec{Name: name, Kind: "bytes", T: ts})
		return Val{P: &Slice{e}}
	})
	regUint("Byte", 8)
	regUint("Uint16", 16)
	regUint("Uint32", 32)
	regUint("Uint64", 64)
	regUint("Int32", 32)
	regUint("Int64", 64)
	regUint("Int", 64)
	reg(symPkg+"Bool", func(w *World, a []Val) Val {
		t := w.symUint(w.mustStr(a[0]), 1)
		return Val{P: w.m.Eq(t, w.m.C(1, 1))}
	})
	reg(symPkg+"Choose", func(w *World, a []Val) Val {
		name := w.inputName(w.mustStr(a[0]))
		n := w.concInt(a[1])
		if n <= 0 {
			panic(&pathEnd{"assume", "empty choice"})
		}
		k := w.choose(n)
		w.inputs = append(w.inputs, InputRec{Name: name, Kind: "choice", C: uint64(k)})
		return intV(k)
	})
	reg(symPkg+"Assume", func(w *World, a []Val) Val {
		c := w.bterm(a[0])
		if c == w.m.T {
			return Val{}
		}
		if c == w.m.F {
			panic(&pathEnd{"assume", ""})
		}
		w.assume(c)
		if w.decIdx < len(w.job.prefix) {
			return Val{}
		}
		if w.model != nil && w.m.EvalBool(c, w.model) {
			return Val{}
		}
		w.model = nil
		r, m := w.check(true)
		switch r {
		case Unsat:
			panic(&pathEnd{"assume", ""})
		case Sat:
			w.setModel(m)
		}
		return Val{}
	})
	reg(symPkg+"Assert", func(w *World, a []Val) Val {
		msg, _ := goStr(a[1])
		w.assertTerm(w.bterm(a[0]), msg)
		return Val{}
	})
	reg(symPkg+"AssertEq", func(w *World, a []Val) Val {
		msg, _ := goStr(a[2])
		w.assertEq(sliceElems(a[0]), sliceElems(a[1]), msg)
		return Val{}
	})
	reg(symPkg+"BytesEq", func(w *World, a []Val) Val {
		return fromBool(w.bytesEq(sliceElems(a[0]), sliceElems(a[1])))
	})
	regPure(symPkg+"And", func(w *World, a []Val) Val { return fromBool(w.m.BAnd(w.bterm(a[0]), w.bterm(a[1]))) })
	regPure(symPkg+"Or", func(w *World, a []Val) Val { return fromBool(w.m.BOr(w.bterm(a[0]), w.bterm(a[1]))) })
	regPure(symPkg+"Not", func(w *World, a []Val) Val { return fromBool(w.m.BNot(w.bterm(a[0]))) })
	reg(symPkg+"Reach", func(w *World, a []Val) Val {
		s, _ := goStr(a[0])
		w.reached[s] = true
		return Val{}
	})
	reg(symPkg+"Observe", func(w *World, a []Val) Val {
		s := w.mustStr(a[0])
		e := sliceElems(a[1])
		w.observes = append(w.observes, Obs{s, append([]Val(nil), e...), 8})
		return Val{}
	})
	reg(symPkg+"ObserveInt", func(w *World, a []Val) Val {
		s := w.mustStr(a[0])
		w.observes = append(w.observes, Obs{s, []Val{a[1]}, 64})
		return Val{}
	})
	reg(symPkg+"Thorough", func(w *World, a []Val) Val { return bV(w.ex.Thorough) })
	reg(symPkg+"Symbolic", func(w *World, a []Val) Val { return bV(true) })
	reg(symPkg+"Concrete", func(w *World, a []Val) Val { // concretise an int
		return intV(w.concInt(a[0]))
	})
	reg(symPkg+"Bound", func(w *World, a []Val) Val {
		s, _ := goStr(a[0])
		w.ex.mu.Lock()
		w.ex.bounds[s] = true
		w.ex.mu.Unlock()
		return Val{}
	})
	reg(symPkg+"Stop", func(w *World, a []Val) Val { panic(&pathEnd{"assume", ""}) })
	reg(symPkg+"Freeze", func(w *World, a []Val) Val {
		what, _ := goStr(a[0])
		if w.frozen == nil {
			w.frozen = map[*Val]string{}
			w.allowed = map[*Val]bool{}
		}
		seen := map[any]bool{}
		for _, v := range sliceElems(a[1]) {
			w.freezeVal(v, what, seen)
		}
		return Val{}
	})
	reg(symPkg+"FreezeGlobals", func(w *World, a []Val) Val {
		if w.frozen == nil {
			w.frozen = map[*Val]string{}
			w.allowed = map[*Val]bool{}
		}
		seen := map[any]bool{}
		for i, g := range w.ex.P.globals {
			p := w.ex.P.globPkg[i].Pkg.Path()
			if strings.HasPrefix(p, repoModule) && g.Name() != "init$guard" {
				c := w.global(i)
				w.freezeCell(c, "package variable "+g.String(), seen)
			}
		}
		return Val{}
	})
	reg(symPkg+"Allow", func(w *World, a []Val) Val {
		for i := range sliceElems(a[0]) {
			w.allowed[&sliceElems(a[0])[i]] = true
		}
		return Val{}
	})
	reg(symPkg+"Unfreeze", func(w *World, a []Val) Val {
		w.frozen, w.allowed = nil, nil
		return Val{}
	})

	// math/bits
	for _, wd := range []int{8, 16, 32, 64} {
		wd := wd
		s := scalar{wd, false, true, false}
		nm := fmt.Sprint(wd)
		regPure("math/bits.RotateLeft"+nm, func(w *World, a []Val) Val {
			k := int(int64(w.conc(a[1], 64))) & (wd - 1)
			if a[0].P == nil {
				switch wd {
				case 8:
					return Val{N: uint64(bits.RotateLeft8(uint8(a[0].N), k))}
				case 16:
					return Val{N: uint64(bits.RotateLeft16(uint16(a[0].N), k))}
				case 32:
					return Val{N: uint64(bits.RotateLeft32(uint32(a[0].N), k))}
				}
				return Val{N: bits.RotateLeft64(a[0].N, k)}
			}
			t := a[0].P.(*Term)
			if k == 0 {
				return a[0]
			}
			return w.fromTerm(w.m.Concat(w.m.Extract(t, 0, wd-k), w.m.Extract(t, wd-k, k)), s)
		})
		regPure("math/bits.Reverse"+nm, func(w *World, a []Val) Val {
			if a[0].P == nil {
				return Val{N: bits.Reverse64(a[0].N) >> uint(64-wd)}
			}
			t := a[0].P.(*Term)
			ps := make([]*Term, wd)
			for i := 0; i < wd; i++ {
				ps[i] = w.m.Extract(t, i, 1)
			}
			return w.fromTerm(w.m.Concat(ps...), s)
		})
	}
	regPure("math/bits.ReverseBytes32", func(w *World, a []Val) Val {
		if a[0].P == nil {
			return Val{N: uint64(bits.ReverseBytes32(uint32(a[0].N)))}
		}
		t := a[0].P.(*Term)
		return w.fromTerm(w.m.Concat(w.m.Extract(t, 0, 8), w.m.Extract(t, 8, 8), w.m.Extract(t, 16, 8), w.m.Extract(t, 24, 8)), scalar{32, false, true, false})
	})
	lenf := func(wd int) Intrinsic {
		return func(w *World, a []Val) Val {
			if a[0].P == nil {
				return intV(bits.Len64(a[0].N & mask(wd)))
			}
			t := a[0].P.(*Term)
			r := w.m.C(64, 0)
			for i := 0; i < wd; i++ {
				r = w.m.Ite(w.m.Eq(w.m.Extract(t, i, 1), w.m.C(1, 1)), w.m.C(64, uint64(i+1)), r)
			}
			return Val{P: r}
		}
	}
	regPure("math/bits.Len8", lenf(8))
	regPure("math/bits.Len16", lenf(16))
	regPure("math/bits.Len32", lenf(32))
	regPure("math/bits.Len64", lenf(64))
	regPure("math/bits.Len", lenf(64))

	// bytealg and friends
	beq := func(w *World, a []Val) Val { return fromBool(w.bytesEq(sliceElems(a[0]), sliceElems(a[1]))) }
	regPure("bytes.Equal", beq)
	regPure("internal/bytealg.Equal", beq)
	regPure("crypto/subtle.ConstantTimeCompare", func(w *World, a []Val) Val {
		c := w.bytesEq(sliceElems(a[0]), sliceElems(a[1]))
		return w.fromTerm(w.m.Ite(c, w.m.C(64, 1), w.m.C(64, 0)), scalar{64, true, true, false})
	})
	cmp := func(w *World, x, y []Val) Val {
		eq := w.bytesEq(x, y)
		if w.branch(eq) {
			return Val{}
		}
		if w.branch(w.bytesLess(x, y)) {
			return intV(-1)
		}
		return intV(1)
	}
	reg("bytes.Compare", func(w *World, a []Val) Val { return cmp(w, sliceElems(a[0]), sliceElems(a[1])) })
	reg("internal/bytealg.Compare", func(w *World, a []Val) Val { return cmp(w, sliceElems(a[0]), sliceElems(a[1])) })
	reg("strings.Compare", func(w *World, a []Val) Val { return cmp(w, strBytes(a[0]), strBytes(a[1])) })
	reg("internal/bytealg.CompareString", func(w *World, a []Val) Val { return cmp(w, strBytes(a[0]), strBytes(a[1])) })
	idxByte := func(w *World, b []Val, c Val) Val {
		for i := range b {
			if w.branch(w.m.Eq(w.term(b[i], 8), w.term(c, 8))) {
				return intV(i)
			}
		}
		return intV(-1)
	}
	lastByte := func(w *World, b []Val, c Val) Val {
		for i := len(b) - 1; i >= 0; i-- {
			if w.branch(w.m.Eq(w.term(b[i], 8), w.term(c, 8))) {
				return intV(i)
			}
		}
		return intV(-1)
	}
	for _, n := range []string{"bytes.IndexByte", "internal/bytealg.IndexByte"} {
		reg(n, func(w *World, a []Val) Val { return idxByte(w, sliceElems(a[0]), a[1]) })
	}
	for _, n := range []string{"strings.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte"} {
		reg(n, func(w *World, a []Val) Val { return idxByte(w, strBytes(a[0]), a[1]) })
	}
	for _, n := range []string{"bytes.LastIndexByte", "internal/bytealg.LastIndexByte"} {
		reg(n, func(w *World, a []Val) Val { return lastByte(w, sliceElems(a[0]), a[1]) })
	}
	for _, n := range []string{"strings.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		reg(n, func(w *World, a []Val) Val { return lastByte(w, strBytes(a[0]), a[1]) })
	}
	countB := func(w *World, b []Val, c Val) Val {
		r := w.m.C(64, 0)
		for i := range b {
			r = w.m.Add(r, w.m.Ite(w.m.Eq(w.term(b[i], 8), w.term(c, 8)), w.m.C(64, 1), w.m.C(64, 0)))
		}
		return w.fromTerm(r, scalar{64, true, true, false})
	}
	reg("internal/bytealg.Count", func(w *World, a []Val) Val { return countB(w, sliceElems(a[0]), a[1]) })
	reg("internal/bytealg.CountString", func(w *World, a []Val) Val { return countB(w, strBytes(a[0]), a[1]) })
	index := func(w *World, s, sub []Val) Val {
		for i := 0; i+len(sub) <= len(s); i++ {
			if w.branch(w.bytesEq(s[i:i+len(sub)], sub)) {
				return intV(i)
			}
		}
		return intV(-1)
	}
	for _, n := range []string{"strings.Index", "internal/stringslite.Index", "internal/bytealg.IndexString"} {
		reg(n, func(w *World, a []Val) Val { return index(w, strBytes(a[0]), strBytes(a[1])) })
	}
	for _, n := range []string{"bytes.Index", "internal/bytealg.Index"} {
		reg(n, func(w *World, a []Val) Val { return index(w, sliceElems(a[0]), sliceElems(a[1])) })
	}
	reg("internal/bytealg.MakeNoZero", func(w *World, a []Val) Val { return Val{P: &Slice{make([]Val, w.concInt(a[0]))}} })
	reg("(*strings.Builder).copyCheck", func(w *World, a []Val) Val { return Val{} })
	reg("(*strings.Builder).String", func(w *World, a []Val) Val {
		return mkStr(sliceElems(a[0].P.(*Val).P.(*Agg).e[1]))
	})
	regPure("internal/abi.NoEscape", func(w *World, a []Val) Val { return a[0] })
	regPure("internal/stringslite.Clone", func(w *World, a []Val) Val { return a[0] })
	regPure("strings.Clone", func(w *World, a []Val) Val { return a[0] })
	xor := func(w *World, a []Val) Val {
		dst, x, y := sliceElems(a[0]), sliceElems(a[1]), sliceElems(a[2])
		n := len(x)
		if len(y) < n {
			n = len(y)
		}
		if n == 0 {
			return Val{}
		}
		if len(dst) < n {
			w.goPanicStr("subtle.XORBytes: dst too short")
		}
		tmp := make([]Val, n)
		for i := 0; i < n; i++ {
			if x[i].P == nil && y[i].P == nil {
				tmp[i] = Val{N: (x[i].N ^ y[i].N) & 0xff}
			} else {
				tmp[i] = w.fromTerm(w.m.Xor(w.term(x[i], 8), w.term(y[i], 8)), u8)
			}
		}
		for i := range tmp {
			w.store(&dst[i], tmp[i])
		}
		return intV(n)
	}
	reg("crypto/subtle.XORBytes", xor)
	reg("crypto/internal/fips140/subtle.XORBytes", xor)
	ovl := func(w *World, a []Val) Val { return bV(overlaps(sliceElems(a[0]), sliceElems(a[1]))) }
	reg("crypto/internal/fips140/alias.AnyOverlap", ovl)
	reg("crypto/internal/fips140/alias.InexactOverlap", func(w *World, a []Val) Val {
		x, y := sliceElems(a[0]), sliceElems(a[1])
		if len(x) == 0 || len(y) == 0 || &x[0] == &y[0] {
			return Val{}
		}
		return bV(overlaps(x, y))
	})

	// sync
	nop := func(w *World, a []Val) Val { return Val{} }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release"} {
		reg(n, nop)
	}
	reg("(*sync.Once).Do", func(w *World, a []Val) Val {
		// done flag kept in an engine side table keyed by the Once's address, undone with the path
		p := a[0].P.(*Val)
		done := w.onceDone()
		if done[p] {
			return Val{}
		}
		done[p] = true
		if w.log {
			w.undo(func() { delete(done, p) })
		}
		w.once++
		defer func() { w.once-- }()
		w.callVal(a[1], nil, nil)
		return Val{}
	})
	reg("(*sync.Pool).Get", func(w *World, a []Val) Val {
		// the object put last, as the runtime does for a single goroutine
		p := a[0].P.(*Val)
		if l := w.pools[p]; len(l) > 0 {
			w.pools[p] = l[:len(l)-1]
			w.undo(func() { w.pools[p] = l })
			return l[len(l)-1]
		}
		ag := p.P.(*Agg)
		f := ag.e[len(ag.e)-1]
		if f.P == nil {
			return Val{}
		}
		return w.callVal(f, nil, nil)
	})
	reg("(*sync.Pool).Put", func(w *World, a []Val) Val {
		p := a[0].P.(*Val)
		if w.pools == nil {
			w.pools = map[*Val][]Val{}
		}
		if a[1].P != nil {
			l := w.pools[p]
			w.pools[p] = append(l[:len(l):len(l)], a[1])
			w.undo(func() { w.pools[p] = l })
		}
		return Val{}
	})

	// errors and formatting: bodies are stubbed, messages are not part of any property
	regFmt()
}

func (w *World) onceDone() map[*Val]bool {
	if w.ex == nil {
		return nil
	}
	if w.onces == nil {
		w.onces = map[*Val]bool{}
	}
	return w.onces
}

func (w *World) errVal(msg string) Val {
	// a *errors.errorString
	ep := w.ex.P.prog.ImportedPackage("errors")
	t := ep.Type("errorString").Type()
	p := &Val{P: &Agg{[]Val{strV(msg)}}}
	return Val{P: &Iface{types.NewPointer(t), Val{P: p}}}
}

func (w *World) errT() types.Type {
	return nil
}

func regFmt() {
	fmtStr := func(w *World, f Val, args Val) string {
		s, ok := goStr(f)
		if !ok {
			return "formatted"
		}
		if strings.Contains(s, "%") {
			return "fmt:" + s
		}
		return s
	}
	reg("fmt.Errorf", func(w *World, a []Val) Val {
		// keep %w wrapping out: the error value is opaque
		return w.errVal(fmtStr(w, a[0], a[1]))
	})
	elems := func(v Val) []Val {
		if s, ok := v.P.(*Slice); ok {
			return s.e
		}
		return nil
	}
	reg("fmt.Sprintf", func(w *World, a []Val) Val {
		if f, ok := goStr(a[0]); ok {
			if b, ok := w.sprintf(f, elems(a[1])); ok {
				return mkStr(b)
			}
		}
		return strV(fmtStr(w, a[0], a[1]))
	})
	reg("fmt.Sprint", func(w *World, a []Val) Val {
		if b, ok := w.sprint(elems(a[0]), false); ok {
			return mkStr(b)
		}
		return strV("fmt.Sprint")
	})
	reg("fmt.Sprintln", func(w *World, a []Val) Val {
		if b, ok := w.sprint(elems(a[0]), true); ok {
			return mkStr(b)
		}
		return strV("fmt.Sprintln")
	})
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		reg(n, func(w *World, a []Val) Val { return tupV(Val{}, Val{}) })
	}
}

// assertEq asserts equality of two byte strings.
func (w *World) assertEq(x, y []Val, msg string) {
	if len(x) != len(y) {
		w.assertTerm(w.m.F, msg+" (lengths differ)")
		return
	}
	w.assertTerm(w.bytesEq(x, y), msg)
}

func init() {
	reg(symPkg+"SkewCounter", func(w *World, a []Val) Val {
		n0, n1 := a[2].N, a[4].N
		n := w.term(a[5], 64)
		var walk func(t types.Type, h *Val, x, y Val) int
		walk = func(t types.Type, h *Val, x, y Val) int {
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				hp, ok1 := h.P.(*Val)
				xp, ok2 := x.P.(*Val)
				yp, ok3 := y.P.(*Val)
				if !ok1 || !ok2 || !ok3 {
					return 0
				}
				return walk(u.Elem(), hp, *xp, *yp)
			case *types.Struct:
				r := 0
				for i := 0; i < u.NumFields(); i++ {
					r += walk(u.Field(i).Type(), &h.P.(*Agg).e[i], x.P.(*Agg).e[i], y.P.(*Agg).e[i])
				}
				return r
			case *types.Basic:
				s := scalarOf(t)
				if !s.ok || s.w != 64 || x.P != nil || y.P != nil {
					return 0
				}
				var v *Term
				switch {
				case x.N == n0 && y.N == n1:
					v = n
				case x.N == n0*8 && y.N == n1*8:
					v = w.m.shlC(n, 3)
				case x.N == n0/64 && y.N == n1/64:
					v = w.m.lshrC(n, 6)
				default:
					return 0
				}
				w.store(h, w.fromTerm(v, s))
				return 1
			}
			return 0
		}
		h, x, y := a[0].P.(*Iface), a[1].P.(*Iface), a[3].P.(*Iface)
		hv := h.v
		return bV(walk(h.t, &hv, x.v, y.v) == 1)
	})
}
