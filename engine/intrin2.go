package main

import "fmt"

func init() {
	type wt struct {
		n string
		s scalar
	}
	for _, t := range []wt{{"Int32", scalar{32, true, true, false}}, {"Int64", scalar{64, true, true, false}}, {"Uint32", scalar{32, false, true, false}}, {"Uint64", scalar{64, false, true, false}}, {"Uintptr", scalar{64, false, true, false}}} {
		t := t
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			reg(pk+"Load"+t.n, func(w *World, a []Val) Val { return w.load(a[0]) })
			reg(pk+"Store"+t.n, func(w *World, a []Val) Val { w.storeTo(a[0], a[1]); return Val{} })
			reg(pk+"Swap"+t.n, func(w *World, a []Val) Val { o := w.load(a[0]); w.storeTo(a[0], a[1]); return o })
			reg(pk+"Add"+t.n, func(w *World, a []Val) Val {
				o := w.load(a[0])
				n := w.fromTerm(w.m.Add(w.term(o, t.s.w), w.term(a[1], t.s.w)), t.s)
				w.storeTo(a[0], n)
				return n
			})
			reg(pk+"CompareAndSwap"+t.n, func(w *World, a []Val) Val {
				o := w.load(a[0])
				if w.branch(w.m.Eq(w.term(o, t.s.w), w.term(a[1], t.s.w))) {
					w.storeTo(a[0], a[2])
					return bV(true)
				}
				return bV(false)
			})
		}
	}
	// the defaults of a main module with a go line below 1.24, as harness/go.mod and the repository's have
	reg("(*internal/godebug.Setting).Value", func(w *World, a []Val) Val {
		str := ""
		if v, ok := a[0].P.(*Val); ok {
			str, _ = v.P.(*Agg).e[0].P.(string)
		}
		switch str {
		case "urlstrictcolons", "urlmaxqueryparams":
			return strV("0")
		case "cryptocustomrand":
			return strV("1")
		}
		return strV("")
	})
	reg("(*internal/godebug.Setting).IncNonDefault", func(w *World, a []Val) Val { return Val{} })
	reg("sync/atomic.LoadPointer", func(w *World, a []Val) Val { return w.load(a[0]) })
	reg("sync/atomic.StorePointer", func(w *World, a []Val) Val { w.storeTo(a[0], a[1]); return Val{} })
	reg("sync/atomic.SwapPointer", func(w *World, a []Val) Val { o := w.load(a[0]); w.storeTo(a[0], a[1]); return o })
	reg("sync/atomic.CompareAndSwapPointer", func(w *World, a []Val) Val {
		o := w.load(a[0])
		if o.P == a[1].P {
			w.storeTo(a[0], a[2])
			return bV(true)
		}
		return bV(false)
	})
	// FIPS service indicators and self tests have no effect on results
	reg("crypto/internal/fips140.setIndicator", func(w *World, a []Val) Val { return Val{} })
	reg("crypto/internal/fips140.getIndicator", func(w *World, a []Val) Val { return Val{} })
	for _, n := range []string{"RecordApproved", "RecordNonApproved", "ResetServiceIndicator", "CAST", "PCT"} {
		reg("crypto/internal/fips140."+n, func(w *World, a []Val) Val { return Val{} })
	}
	reg("crypto/internal/fips140only.Enforced", func(w *World, a []Val) Val { return Val{} })
	reg("unique.Make", func(w *World, a []Val) Val {
		k, ok := w.mapKey(a[0])
		if !ok {
			panic(unsupported("unique.Make of a symbolic value"))
		}
		h, ok := w.uniq[k]
		if !ok {
			p := new(Val)
			*p = copyVal(a[0])
			h = Val{P: p}
			if w.uniq == nil {
				w.uniq = map[string]Val{}
			}
			w.uniq[k] = h
		}
		return Val{P: &Agg{[]Val{h}}}
	})
	reg("time.initLocal", func(w *World, a []Val) Val { return Val{} }) // the local zone is UTC
	reg("time.runtimeNano", func(w *World, a []Val) Val { return intV(1) })
	reg("crypto/internal/boring.Unreachable", func(w *World, a []Val) Val { return Val{} })
}

// load reads through a pointer value.
func (w *World) load(a Val) Val {
	switch p := a.P.(type) {
	case *Val:
		return *p
	case nil:
		w.goPanicStr("invalid memory address or nil pointer dereference")
	}
	panic(unsupported(fmt.Sprintf("atomic access through %T", a.P)))
}
