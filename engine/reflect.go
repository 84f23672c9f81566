package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// A model of package reflect over the interpreter's own values: a reflect.Value holds an *RV in its
// second field, a reflect.Type is an *RType behind *reflect.rtype.

type RType struct{ t types.Type }

type RV struct {
	t    types.Type
	v    Val
	addr *Val
	ro   bool
}

var rtMu sync.Mutex
var rtMap typeutil.Map

func rtype(t types.Type) *RType {
	rtMu.Lock()
	defer rtMu.Unlock()
	if r, ok := rtMap.At(t).(*RType); ok {
		return r
	}
	r := &RType{t}
	rtMap.Set(t, r)
	return r
}

func (r *RV) get() Val {
	if r.addr != nil {
		return copyVal(*r.addr)
	}
	return r.v
}

func rvVal(r *RV) Val {
	if r == nil {
		return Val{P: &Agg{make([]Val, 3)}}
	}
	return Val{P: &Agg{[]Val{{}, {P: r}, {N: 1}}}}
}

func rvOf(v Val) *RV {
	if a, ok := v.P.(*Agg); ok && len(a.e) > 1 {
		r, _ := a.e[1].P.(*RV)
		return r
	}
	return nil
}

func (w *World) mustRV(v Val, what string) *RV {
	r := rvOf(v)
	if r == nil {
		w.goPanicStr("reflect: call of reflect.Value." + what + " on zero Value")
	}
	return r
}

func kindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// typeVal is the reflect.Type interface value of t.
func (w *World) typeVal(t types.Type) Val {
	return Val{P: &Iface{w.ex.P.rtypePtr(), Val{P: rtype(t)}}}
}

func (P *Prog) rtypePtr() types.Type {
	P.rtOnce.Do(func() {
		pkg := P.prog.ImportedPackage("reflect")
		P.rtPtr = types.NewPointer(pkg.Pkg.Scope().Lookup("rtype").Type())
	})
	return P.rtPtr
}

// ifaceToRV takes an interface value apart.
func ifaceToRV(v Val) *RV {
	i, ok := v.P.(*Iface)
	if !ok || i == nil {
		return nil
	}
	return &RV{t: i.t, v: i.v}
}

func (w *World) ifaceVal(t types.Type, v Val) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return Val{P: &Iface{t, v}}
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *World) setRV(r *RV, v Val, what string) {
	if r.addr == nil {
		w.goPanicStr("reflect: reflect.Value." + what + " using unaddressable value")
	}
	if r.ro {
		w.goPanicStr("reflect: reflect.Value." + what + " using value obtained using unexported field")
	}
	w.store(r.addr, v)
}

func (w *World) isZeroVal(t types.Type, v Val) *Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := w.m.T
		for i, e := range v.P.(*Agg).e {
			r = w.m.BAnd(r, w.isZeroVal(u.Field(i).Type(), e))
		}
		return r
	case *types.Array:
		r := w.m.T
		for _, e := range v.P.(*Agg).e {
			r = w.m.BAnd(r, w.isZeroVal(u.Elem(), e))
		}
		return r
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return w.m.Bool(strLen(v) == 0)
		}
		return w.eqVal(t, v, zeroVal(t))
	}
	return w.m.Bool(v.P == nil)
}

func (w *World) deepEqual(t types.Type, a, b Val, depth int) *Term {
	if depth > 50 {
		panic(unsupported("DeepEqual recursion"))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := w.m.T
		x, y := a.P.(*Agg), b.P.(*Agg)
		for i := range x.e {
			r = w.m.BAnd(r, w.deepEqual(u.Field(i).Type(), x.e[i], y.e[i], depth+1))
		}
		return r
	case *types.Array:
		r := w.m.T
		x, y := a.P.(*Agg), b.P.(*Agg)
		for i := range x.e {
			r = w.m.BAnd(r, w.deepEqual(u.Elem(), x.e[i], y.e[i], depth+1))
		}
		return r
	case *types.Slice:
		if (a.P == nil) != (b.P == nil) {
			return w.m.F
		}
		x, y := sliceElems(a), sliceElems(b)
		if len(x) != len(y) {
			return w.m.F
		}
		r := w.m.T
		for i := range x {
			r = w.m.BAnd(r, w.deepEqual(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Pointer:
		if a.P == nil || b.P == nil || a.P == b.P {
			return w.m.Bool(a.P == b.P)
		}
		x, ok1 := a.P.(*Val)
		y, ok2 := b.P.(*Val)
		if !ok1 || !ok2 {
			return w.m.F
		}
		if isBigInt(u.Elem()) {
			panic(unsupported("DeepEqual of big.Int"))
		}
		return w.deepEqual(u.Elem(), *x, *y, depth+1)
	case *types.Interface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == nil || y == nil {
			return w.m.Bool(x == nil && y == nil)
		}
		if !types.Identical(x.t, y.t) {
			return w.m.F
		}
		return w.deepEqual(x.t, x.v, y.v, depth+1)
	case *types.Map:
		panic(unsupported("DeepEqual of maps"))
	case *types.Signature:
		return w.m.Bool(a.P == nil && b.P == nil)
	}
	return w.eqVal(t, a, b)
}

func isBigInt(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

func (w *World) rtArg(v Val) types.Type { // reflect.Type interface
	i, ok := v.P.(*Iface)
	if !ok || i == nil {
		w.goPanicStr("reflect: nil type")
	}
	return i.v.P.(*RType).t
}

func structField(w *World, st types.Type, i int) Val {
	u := st.Underlying().(*types.Struct)
	f := u.Field(i)
	sf := w.ex.P.prog.ImportedPackage("reflect").Pkg.Scope().Lookup("StructField").Type()
	z := zeroVal(sf)
	fs := sf.Underlying().(*types.Struct)
	a := z.P.(*Agg)
	for k := 0; k < fs.NumFields(); k++ {
		switch fs.Field(k).Name() {
		case "Name":
			a.e[k] = strV(f.Name())
		case "PkgPath":
			if !f.Exported() {
				a.e[k] = strV(f.Pkg().Path())
			}
		case "Type":
			a.e[k] = w.typeVal(f.Type())
		case "Tag":
			a.e[k] = strV(u.Tag(i))
		case "Index":
			a.e[k] = Val{P: &Slice{[]Val{intV(i)}}}
		case "Anonymous":
			a.e[k] = bV(f.Anonymous())
		}
	}
	return z
}

var sizes64 = types.SizesFor("gc", "amd64")

func init() {
	pkgIntr["reflect"] = func(f *ssa.Function) Intrinsic {
		if o := f.Origin(); o != nil && o != f {
			ta := f.TypeArgs()
			switch o.Name() {
			case "TypeFor":
				return func(w *World, a []Val) Val { return w.typeVal(ta[0]) }
			case "TypeAssert":
				return func(w *World, a []Val) Val {
					r := w.mustRV(a[0], "TypeAssert")
					if it, ok := ta[0].Underlying().(*types.Interface); ok {
						v := r.get()
						if _, isI := r.t.Underlying().(*types.Interface); !isI {
							v = w.ifaceVal(r.t, v)
						}
						if i, ok := v.P.(*Iface); ok && w.ex.P.implements(i.t, it) {
							return tupV(v, bV(true))
						}
						return tupV(zeroVal(ta[0]), bV(false))
					}
					if !types.Identical(r.t, ta[0]) {
						if i, ok := r.get().P.(*Iface); ok && types.Identical(i.t, ta[0]) {
							return tupV(copyVal(i.v), bV(true))
						}
						return tupV(zeroVal(ta[0]), bV(false))
					}
					return tupV(copyVal(r.get()), bV(true))
				}
			}
		}
		switch f.String() {
		case "(reflect.StructTag).Get", "(reflect.StructTag).Lookup", "(reflect.Kind).String", "(reflect.StructField).IsExported":
			return nil
		}
		n := f.String()
		if f.Synthetic != "" {
			return nil
		}
		return func(w *World, a []Val) Val { panic(unsupported("reflection: " + n)) }
	}
	rt := func(name string, f func(w *World, t types.Type, a []Val) Val) {
		reg("(*reflect.rtype)."+name, func(w *World, a []Val) Val {
			r, ok := a[0].P.(*RType)
			if !ok {
				panic(unsupported("foreign reflect.Type"))
			}
			return f(w, r.t, a[1:])
		})
	}
	rt("Kind", func(w *World, t types.Type, a []Val) Val { return intV(kindOf(t)) })
	rt("Elem", func(w *World, t types.Type, a []Val) Val {
		if e, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
			return w.typeVal(e.Elem())
		}
		w.goPanicStr("reflect: Elem of invalid type " + t.String())
		return Val{}
	})
	rt("NumField", func(w *World, t types.Type, a []Val) Val {
		return intV(t.Underlying().(*types.Struct).NumFields())
	})
	rt("Field", func(w *World, t types.Type, a []Val) Val { return structField(w, t, w.concInt(a[0])) })
	rt("Name", func(w *World, t types.Type, a []Val) Val {
		switch n := types.Unalias(t).(type) {
		case *types.Named:
			return strV(n.Obj().Name())
		case *types.Basic:
			return strV(n.Name())
		}
		return Val{}
	})
	rt("String", func(w *World, t types.Type, a []Val) Val { return strV(typeString(t)) })
	rt("PkgPath", func(w *World, t types.Type, a []Val) Val {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return strV(n.Obj().Pkg().Path())
		}
		return Val{}
	})
	rt("Size", func(w *World, t types.Type, a []Val) Val { return Val{N: uint64(sizes64.Sizeof(t))} })
	rt("Bits", func(w *World, t types.Type, a []Val) Val { return Val{N: uint64(sizes64.Sizeof(t)) * 8} })
	rt("Len", func(w *World, t types.Type, a []Val) Val {
		return intV(int(t.Underlying().(*types.Array).Len()))
	})
	rt("NumMethod", func(w *World, t types.Type, a []Val) Val {
		if i, ok := t.Underlying().(*types.Interface); ok {
			return intV(i.NumMethods())
		}
		ms := types.NewMethodSet(t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return intV(n)
	})
	rt("Implements", func(w *World, t types.Type, a []Val) Val {
		return bV(types.Implements(t, w.rtArg(a[0]).Underlying().(*types.Interface)))
	})
	rt("Comparable", func(w *World, t types.Type, a []Val) Val { return bV(types.Comparable(t)) })
	rt("AssignableTo", func(w *World, t types.Type, a []Val) Val { return bV(types.AssignableTo(t, w.rtArg(a[0]))) })
	rt("ConvertibleTo", func(w *World, t types.Type, a []Val) Val { return bV(types.ConvertibleTo(t, w.rtArg(a[0]))) })

	for _, n := range []string{"reflect.TypeOf", "internal/reflectlite.TypeOf"} {
		reg(n, func(w *World, a []Val) Val {
			r := ifaceToRV(a[0])
			if r == nil {
				return Val{}
			}
			return w.typeVal(r.t)
		})
	}
	reg("reflect.ValueOf", func(w *World, a []Val) Val { return rvVal(ifaceToRV(a[0])) })
	reg("reflect.Zero", func(w *World, a []Val) Val {
		t := w.rtArg(a[0])
		return rvVal(&RV{t: t, v: zeroVal(t)})
	})
	reg("reflect.New", func(w *World, a []Val) Val {
		t := w.rtArg(a[0])
		p := new(Val)
		*p = zeroVal(t)
		return rvVal(&RV{t: types.NewPointer(t), v: Val{P: p}})
	})
	reg("reflect.PointerTo", func(w *World, a []Val) Val { return w.typeVal(types.NewPointer(w.rtArg(a[0]))) })
	reg("reflect.MakeSlice", func(w *World, a []Val) Val {
		t := w.rtArg(a[0])
		n, c := w.concInt(a[1]), w.concInt(a[2])
		if n < 0 || c < n {
			w.goPanicStr("reflect.MakeSlice: bad length")
		}
		et := t.Underlying().(*types.Slice).Elem()
		e := make([]Val, c)
		for i := range e {
			e[i] = zeroVal(et)
		}
		return rvVal(&RV{t: t, v: Val{P: &Slice{e[:n]}}})
	})
	reg("reflect.Indirect", func(w *World, a []Val) Val {
		r := w.mustRV(a[0], "Indirect")
		if kindOf(r.t) == 22 {
			return w.rvElem(r)
		}
		return a[0]
	})
	reg("reflect.Copy", func(w *World, a []Val) Val {
		d, s := w.mustRV(a[0], "Copy"), w.mustRV(a[1], "Copy")
		var se, de []Val
		if kindOf(s.t) == 24 {
			se = strBytes(s.get())
		} else if ag, ok := s.get().P.(*Agg); ok {
			se = ag.e
		} else {
			se = sliceElems(s.get())
		}
		if kindOf(d.t) == 17 {
			if d.addr == nil {
				w.goPanicStr("reflect.Copy: unaddressable array")
			}
			de = d.addr.P.(*Agg).e
		} else {
			de = sliceElems(d.get())
		}
		n := min(len(se), len(de))
		w.copyVals(de[:n], se[:n])
		return intV(n)
	})
	reg("reflect.DeepEqual", func(w *World, a []Val) Val {
		x, y := ifaceToRV(a[0]), ifaceToRV(a[1])
		if x == nil || y == nil {
			return bV(x == nil && y == nil)
		}
		if !types.Identical(x.t, y.t) {
			return bV(false)
		}
		return fromBool(w.deepEqual(x.t, x.v, y.v, 0))
	})
	reg("reflect.Append", func(w *World, a []Val) Val {
		r := w.mustRV(a[0], "Append")
		var add []Val
		for _, x := range sliceElems(a[1]) {
			add = append(add, w.mustRV(x, "Append").get())
		}
		et := r.t.Underlying().(*types.Slice).Elem()
		return rvVal(&RV{t: r.t, v: w.appendVals(r.get(), add, needsAgg(et), et)})
	})

	rv := func(name string, f func(w *World, r *RV, a []Val) Val) {
		reg("(reflect.Value)."+name, func(w *World, a []Val) Val {
			return f(w, w.mustRV(a[0], name), a[1:])
		})
	}
	reg("(reflect.Value).Kind", func(w *World, a []Val) Val {
		r := rvOf(a[0])
		if r == nil {
			return Val{}
		}
		return intV(kindOf(r.t))
	})
	reg("(reflect.Value).IsValid", func(w *World, a []Val) Val { return bV(rvOf(a[0]) != nil) })
	rv("Type", func(w *World, r *RV, a []Val) Val { return w.typeVal(r.t) })
	rv("Elem", func(w *World, r *RV, a []Val) Val { return w.rvElem(r) })
	rv("NumField", func(w *World, r *RV, a []Val) Val { return intV(r.t.Underlying().(*types.Struct).NumFields()) })
	rv("Field", func(w *World, r *RV, a []Val) Val {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			w.goPanicStr("reflect: call of reflect.Value.Field on non-struct")
		}
		i := w.concInt(a[0])
		if i < 0 || i >= st.NumFields() {
			w.goPanicStr("reflect: Field index out of range")
		}
		f := st.Field(i)
		n := &RV{t: f.Type(), ro: r.ro || !f.Exported()}
		if r.addr != nil {
			n.addr = &r.addr.P.(*Agg).e[i]
		} else {
			n.v = r.v.P.(*Agg).e[i]
		}
		return rvVal(n)
	})
	rv("Index", func(w *World, r *RV, a []Val) Val {
		i := w.concInt(a[0])
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			e := sliceElems(r.get())
			if i < 0 || i >= len(e) {
				w.goPanicStr("reflect: slice index out of range")
			}
			return rvVal(&RV{t: u.Elem(), addr: &e[i], ro: r.ro})
		case *types.Array:
			if i < 0 || i >= int(u.Len()) {
				w.goPanicStr("reflect: array index out of range")
			}
			if r.addr != nil {
				return rvVal(&RV{t: u.Elem(), addr: &r.addr.P.(*Agg).e[i], ro: r.ro})
			}
			return rvVal(&RV{t: u.Elem(), v: r.v.P.(*Agg).e[i], ro: r.ro})
		case *types.Basic:
			e := strBytes(r.get())
			if i < 0 || i >= len(e) {
				w.goPanicStr("reflect: string index out of range")
			}
			return rvVal(&RV{t: types.Typ[types.Uint8], v: e[i], ro: r.ro})
		}
		panic(unsupported("reflect Index of " + r.t.String()))
	})
	rv("Len", func(w *World, r *RV, a []Val) Val {
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			return intV(len(sliceElems(r.get())))
		case *types.Array:
			return intV(int(u.Len()))
		case *types.Map:
			m, _ := r.get().P.(*MapV)
			if m == nil {
				return intV(0)
			}
			return intV(m.n)
		}
		return intV(strLen(r.get()))
	})
	rv("Cap", func(w *World, r *RV, a []Val) Val { return intV(cap(sliceElems(r.get()))) })
	rv("IsNil", func(w *World, r *RV, a []Val) Val {
		switch kindOf(r.t) {
		case 18, 19, 20, 21, 22, 23, 26:
			return bV(r.get().P == nil)
		}
		w.goPanicStr("reflect: call of reflect.Value.IsNil on " + r.t.String())
		return Val{}
	})
	rv("IsZero", func(w *World, r *RV, a []Val) Val { return fromBool(w.isZeroVal(r.t, r.get())) })
	rv("CanAddr", func(w *World, r *RV, a []Val) Val { return bV(r.addr != nil) })
	rv("CanSet", func(w *World, r *RV, a []Val) Val { return bV(r.addr != nil && !r.ro) })
	rv("CanInterface", func(w *World, r *RV, a []Val) Val { return bV(!r.ro) })
	rv("Addr", func(w *World, r *RV, a []Val) Val {
		if r.addr == nil {
			w.goPanicStr("reflect.Value.Addr of unaddressable value")
		}
		return rvVal(&RV{t: types.NewPointer(r.t), v: Val{P: r.addr}, ro: r.ro})
	})
	rv("Interface", func(w *World, r *RV, a []Val) Val {
		if r.ro {
			w.goPanicStr("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return w.ifaceVal(r.t, copyVal(r.get()))
	})
	scalarGet := func(w *World, r *RV, what string, want64 scalar) Val {
		s := scalarOf(r.t)
		if !s.ok || s.w == 0 {
			w.goPanicStr("reflect: call of reflect.Value." + what + " on " + r.t.String() + " Value")
		}
		v := r.get()
		if v.P == nil {
			return v
		}
		t := w.term(v, s.w)
		if s.signed {
			t = w.m.SExt(t, 64)
		} else {
			t = w.m.ZExt(t, 64)
		}
		return w.fromTerm(t, want64)
	}
	i64 := scalar{64, true, true, false}
	rv("Int", func(w *World, r *RV, a []Val) Val {
		if k := kindOf(r.t); k < 2 || k > 6 {
			w.goPanicStr("reflect: call of reflect.Value.Int on " + r.t.String() + " Value")
		}
		return scalarGet(w, r, "Int", i64)
	})
	rv("Uint", func(w *World, r *RV, a []Val) Val {
		if k := kindOf(r.t); k < 7 || k > 12 {
			w.goPanicStr("reflect: call of reflect.Value.Uint on " + r.t.String() + " Value")
		}
		return scalarGet(w, r, "Uint", u64s)
	})
	rv("Bool", func(w *World, r *RV, a []Val) Val {
		if kindOf(r.t) != 1 {
			w.goPanicStr("reflect: call of reflect.Value.Bool on " + r.t.String() + " Value")
		}
		return r.get()
	})
	reg("(reflect.Value).String", func(w *World, a []Val) Val {
		r := rvOf(a[0])
		if r == nil {
			return strV("<invalid Value>")
		}
		if kindOf(r.t) == 24 {
			return r.get()
		}
		return strV("<" + typeString(r.t) + " Value>")
	})
	rv("Bytes", func(w *World, r *RV, a []Val) Val {
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			if kindOf(u.Elem()) == 8 {
				return r.get()
			}
		case *types.Array:
			if kindOf(u.Elem()) == 8 && r.addr != nil {
				return Val{P: &Slice{r.addr.P.(*Agg).e}}
			}
		}
		w.goPanicStr("reflect: call of reflect.Value.Bytes on " + r.t.String() + " Value")
		return Val{}
	})
	ovf := func(sgn bool) func(w *World, r *RV, a []Val) Val {
		return func(w *World, r *RV, a []Val) Val {
			s := scalarOf(r.t)
			if !s.ok || s.signed != sgn || s.w == 0 {
				w.goPanicStr("reflect: call of reflect.Value.Overflow on " + r.t.String() + " Value")
			}
			if s.w == 64 {
				return bV(false)
			}
			t := w.term(a[0], 64)
			l := w.m.Extract(t, 0, s.w)
			if sgn {
				l = w.m.SExt(l, 64)
			} else {
				l = w.m.ZExt(l, 64)
			}
			return fromBool(w.m.BNot(w.m.Eq(l, t)))
		}
	}
	rv("OverflowInt", ovf(true))
	rv("OverflowUint", ovf(false))
	setN := func(what string, sgn bool) func(w *World, r *RV, a []Val) Val {
		return func(w *World, r *RV, a []Val) Val {
			s := scalarOf(r.t)
			if !s.ok || s.w == 0 || s.signed != sgn {
				w.goPanicStr("reflect: call of reflect.Value." + what + " on " + r.t.String() + " Value")
			}
			w.setRV(r, w.fromTerm(w.m.Extract(w.term(a[0], 64), 0, s.w), s), what)
			return Val{}
		}
	}
	rv("SetInt", setN("SetInt", true))
	rv("SetUint", setN("SetUint", false))
	rv("SetBool", func(w *World, r *RV, a []Val) Val { w.setRV(r, a[0], "SetBool"); return Val{} })
	rv("SetString", func(w *World, r *RV, a []Val) Val { w.setRV(r, a[0], "SetString"); return Val{} })
	rv("SetBytes", func(w *World, r *RV, a []Val) Val { w.setRV(r, a[0], "SetBytes"); return Val{} })
	rv("SetZero", func(w *World, r *RV, a []Val) Val { w.setRV(r, zeroVal(r.t), "SetZero"); return Val{} })
	rv("SetLen", func(w *World, r *RV, a []Val) Val {
		e := sliceElems(r.get())
		n := w.concInt(a[0])
		if n < 0 || n > cap(e) {
			w.goPanicStr("reflect: slice length out of range in SetLen")
		}
		w.setRV(r, Val{P: &Slice{e[:n:cap(e)]}}, "SetLen")
		return Val{}
	})
	rv("Set", func(w *World, r *RV, a []Val) Val {
		x := w.mustRV(a[0], "Set")
		if x.ro {
			w.goPanicStr("reflect.Set: value obtained using unexported field")
		}
		v := copyVal(x.get())
		if it, ok := r.t.Underlying().(*types.Interface); ok {
			if _, isI := x.t.Underlying().(*types.Interface); !isI {
				if !types.Implements(x.t, it) {
					w.goPanicStr("reflect.Set: value of type " + x.t.String() + " is not assignable to type " + r.t.String())
				}
				v = w.ifaceVal(x.t, v)
			}
		} else if !types.AssignableTo(x.t, r.t) {
			w.goPanicStr("reflect.Set: value of type " + x.t.String() + " is not assignable to type " + r.t.String())
		}
		w.setRV(r, v, "Set")
		return Val{}
	})
	rv("Slice", func(w *World, r *RV, a []Val) Val {
		i, j := w.concInt(a[0]), w.concInt(a[1])
		switch u := r.t.Underlying().(type) {
		case *types.Slice:
			e := sliceElems(r.get())
			if i < 0 || j < i || j > cap(e) {
				w.goPanicStr("reflect.Value.Slice: slice index out of bounds")
			}
			return rvVal(&RV{t: r.t, v: Val{P: &Slice{e[i:j]}}})
		case *types.Array:
			if r.addr == nil || i < 0 || j < i || j > int(u.Len()) {
				w.goPanicStr("reflect.Value.Slice: bad array slice")
			}
			return rvVal(&RV{t: types.NewSlice(u.Elem()), v: Val{P: &Slice{r.addr.P.(*Agg).e[i:j]}}})
		}
		panic(unsupported("reflect Slice of " + r.t.String()))
	})
}

func (w *World) rvElem(r *RV) Val {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		v := r.get()
		if v.P == nil {
			return rvVal(nil)
		}
		p, ok := v.P.(*Val)
		if !ok {
			panic(unsupported(fmt.Sprintf("reflect Elem through %T", v.P)))
		}
		return rvVal(&RV{t: u.Elem(), addr: p, ro: r.ro})
	case *types.Interface:
		n := ifaceToRV(r.get())
		if n != nil {
			n.ro = r.ro
		}
		return rvVal(n)
	}
	w.goPanicStr("reflect: call of reflect.Value.Elem on " + r.t.String() + " Value")
	return Val{}
}
