package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a value of the interpreted program.
//
//	bool, integers, floats: P==nil, N = value (signed: sign extended; float: bits) or P=*Term
//	string: P = string | *Str | nil (empty)
//	pointer: P = *Val | *SymPtr | nil, or an opaque model object
//	struct, array: P = *Agg
//	slice: P = *Slice | nil
//	interface: P = *Iface | nil
//	func: P = *Closure | nil
//	map: P = *MapV | nil
//	tuple: P = *Tuple
type Val struct {
	N uint64
	P any
}

type Agg struct{ e []Val }
type Slice struct{ e []Val }
type Str struct{ b []Val }
type Iface struct {
	t types.Type
	v Val
}
type Closure struct {
	fn  *ssa.Function
	env []Val
	nat func(w *World, args []Val) Val // native closure
}
type Tuple struct{ e []Val }
type SymPtr struct {
	e   []Val
	idx *Term
	s   scalar
}
type MapV struct {
	keys []Val
	vals []Val
	del  []bool
	idx  map[string]int
	n    int
	symk bool
}

func iN(v uint64) Val { return Val{N: v} }
func bV(b bool) Val {
	if b {
		return Val{N: 1}
	}
	return Val{}
}
func intV(i int) Val { return Val{N: uint64(int64(i))} }
func strV(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{P: s}
}
func tupV(v ...Val) Val { return Val{P: &Tuple{v}} }

// scalar info
type scalar struct {
	w      int // bits; 0 = bool
	signed bool
	ok     bool
	float  bool
}

func scalarOf(t types.Type) scalar {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return scalar{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return scalar{w: 0, ok: true}
	case types.Int8:
		return scalar{8, true, true, false}
	case types.Int16:
		return scalar{16, true, true, false}
	case types.Int32, types.UntypedRune:
		return scalar{32, true, true, false}
	case types.Int, types.Int64, types.UntypedInt:
		return scalar{64, true, true, false}
	case types.Uint8:
		return scalar{8, false, true, false}
	case types.Uint16:
		return scalar{16, false, true, false}
	case types.Uint32:
		return scalar{32, false, true, false}
	case types.Uint, types.Uint64, types.Uintptr:
		return scalar{64, false, true, false}
	case types.Float32:
		return scalar{32, true, false, true}
	case types.Float64, types.UntypedFloat:
		return scalar{64, true, false, true}
	}
	return scalar{}
}

func (s scalar) canon(v uint64) uint64 {
	if s.w == 0 {
		return v & 1
	}
	if s.w == 64 {
		return v
	}
	if s.signed {
		return uint64(signed(v, s.w))
	}
	return v & mask(s.w)
}

// zero value of a type (fresh aggregates).
func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{make([]Val, u.NumFields())}
		for i := range a.e {
			a.e[i] = zeroVal(u.Field(i).Type())
		}
		return Val{P: a}
	case *types.Array:
		a := &Agg{make([]Val, int(u.Len()))}
		if needsAgg(u.Elem()) {
			for i := range a.e {
				a.e[i] = zeroVal(u.Elem())
			}
		}
		return Val{P: a}
	case *types.Tuple:
		tp := &Tuple{make([]Val, u.Len())}
		for i := range tp.e {
			tp.e[i] = zeroVal(u.At(i).Type())
		}
		return Val{P: tp}
	}
	return Val{}
}

func needsAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func copyVal(v Val) Val {
	if a, ok := v.P.(*Agg); ok {
		n := &Agg{make([]Val, len(a.e))}
		for i := range a.e {
			if _, ok := a.e[i].P.(*Agg); ok {
				n.e[i] = copyVal(a.e[i])
			} else {
				n.e[i] = a.e[i]
			}
		}
		return Val{P: n}
	}
	return v
}

func (w *World) term(v Val, width int) *Term {
	if v.P == nil {
		return w.m.C(width, v.N)
	}
	if t, ok := v.P.(*Term); ok {
		if t.w != width {
			panic(fmt.Sprintf("term width %d, wanted %d", t.w, width))
		}
		return t
	}
	panic(unsupported(fmt.Sprintf("term of %T", v.P)))
}

func (w *World) bterm(v Val) *Term {
	if v.P == nil {
		return w.m.Bool(v.N != 0)
	}
	return v.P.(*Term)
}

func (w *World) fromTerm(t *Term, s scalar) Val {
	if t.op == OConst {
		if t.w == 0 {
			return Val{N: t.k}
		}
		return Val{N: s.canon(t.k)}
	}
	return Val{P: t}
}
func fromBool(t *Term) Val {
	if t.op == OConst {
		return Val{N: t.k}
	}
	return Val{P: t}
}

// ---- strings ----

func strLen(v Val) int {
	switch p := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(p)
	case *Str:
		return len(p.b)
	}
	panic(fmt.Sprintf("strLen %T", v.P))
}
func strBytes(v Val) []Val {
	switch p := v.P.(type) {
	case nil:
		return nil
	case string:
		b := make([]Val, len(p))
		for i := 0; i < len(p); i++ {
			b[i].N = uint64(p[i])
		}
		return b
	case *Str:
		return p.b
	}
	panic(fmt.Sprintf("strBytes %T", v.P))
}
func mkStr(b []Val) Val {
	if len(b) == 0 {
		return Val{}
	}
	for i := range b {
		if b[i].P != nil {
			c := make([]Val, len(b))
			copy(c, b)
			return Val{P: &Str{c}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].N)
	}
	return Val{P: string(bs)}
}
func goStr(v Val) (string, bool) {
	switch p := v.P.(type) {
	case nil:
		return "", true
	case string:
		return p, true
	case *Str:
		bs := make([]byte, len(p.b))
		for i := range p.b {
			if p.b[i].P != nil {
				return "", false
			}
			bs[i] = byte(p.b[i].N)
		}
		return string(bs), true
	}
	return "", false
}

// mustStr concretises.
func (w *World) mustStr(v Val) string {
	if s, ok := goStr(v); ok {
		return s
	}
	p := v.P.(*Str)
	bs := make([]byte, len(p.b))
	for i := range p.b {
		bs[i] = byte(w.conc(p.b[i], 8))
	}
	return string(bs)
}

func sliceElems(v Val) []Val {
	if v.P == nil {
		return nil
	}
	return v.P.(*Slice).e
}
func mkSlice(e []Val) Val {
	if e == nil {
		return Val{}
	}
	return Val{P: &Slice{e}}
}
func bytesVal(b []byte) Val {
	e := make([]Val, len(b))
	for i, x := range b {
		e[i].N = uint64(x)
	}
	return Val{P: &Slice{e}}
}
func concBytes(e []Val) ([]byte, bool) {
	bs := make([]byte, len(e))
	for i := range e {
		if e[i].P != nil {
			return nil, false
		}
		bs[i] = byte(e[i].N)
	}
	return bs, true
}

// ---- equality ----

func (w *World) bytesEq(a, b []Val) *Term {
	if len(a) != len(b) {
		return w.m.F
	}
	parts := make([]*Term, 0, len(a))
	for i := range a {
		if a[i].P == nil && b[i].P == nil {
			if byte(a[i].N) != byte(b[i].N) {
				return w.m.F
			}
			continue
		}
		e := w.m.Eq(w.term(a[i], 8), w.term(b[i], 8))
		if e == w.m.F {
			return e
		}
		parts = append(parts, e)
	}
	return w.m.BAnd(parts...)
}

// bytesLess: lexicographic a < b
func (w *World) bytesLess(a, b []Val) *Term {
	m := w.m
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := m.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		x, y := w.term(a[i], 8), w.term(b[i], 8)
		r = m.BOr(m.Ult(x, y), m.BAnd(m.Eq(x, y), r))
	}
	return r
}

func (w *World) eqVal(t types.Type, a, b Val) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if x, ok := goStr(a); ok {
				if y, ok := goStr(b); ok {
					return w.m.Bool(x == y)
				}
			}
			return w.bytesEq(strBytes(a), strBytes(b))
		}
		if u.Kind() == types.UnsafePointer {
			return w.m.Bool(a.P == b.P && a.N == b.N)
		}
		if u.Info()&types.IsFloat != 0 {
			return w.m.Bool(fl(a, u) == fl(b, u))
		}
		if a.P == nil && b.P == nil {
			return w.m.Bool(a.N == b.N)
		}
		s := scalarOf(t)
		return w.m.Eq(w.term(a, s.w), w.term(b, s.w))
	case *types.Struct:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := w.m.T
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = w.m.BAnd(r, w.eqVal(u.Field(i).Type(), x.e[i], y.e[i]))
			if r == w.m.F {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := w.m.T
		var parts []*Term
		for i := range x.e {
			e := w.eqVal(u.Elem(), x.e[i], y.e[i])
			if e == w.m.F {
				return e
			}
			parts = append(parts, e)
		}
		r = w.m.BAnd(parts...)
		return r
	case *types.Interface:
		return w.eqIface(a, b)
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature, *types.Slice:
		if x, ok := a.P.(*SymPtr); ok {
			if y, ok := b.P.(*SymPtr); ok && x == y {
				return w.m.T
			}
			panic(unsupported("comparison of symbolic pointers"))
		}
		if s, ok := a.P.(*Slice); ok { // only nil comparison is legal
			_ = s
			return w.m.Bool(b.P != nil)
		}
		if b.P != nil {
			if _, ok := b.P.(*Slice); ok {
				return w.m.F
			}
		}
		return w.m.Bool(a.P == b.P)
	}
	panic(unsupported("equality on " + t.String()))
}

func (w *World) eqIface(a, b Val) *Term {
	if a.P == nil || b.P == nil {
		return w.m.Bool(a.P == nil && b.P == nil)
	}
	x, y := a.P.(*Iface), b.P.(*Iface)
	if !types.Identical(x.t, y.t) {
		return w.m.F
	}
	if !types.Comparable(x.t) {
		w.goPanicStr("runtime error: comparing uncomparable type " + x.t.String())
	}
	return w.eqVal(x.t, x.v, y.v)
}

// ---- maps ----

func (w *World) mapKey(v Val) (string, bool) {
	switch p := v.P.(type) {
	case nil:
		return fmt.Sprintf("n%d", v.N), true
	case string:
		return "s" + p, true
	case *Str, *Term:
		return "", false
	case *Agg:
		var sb strings.Builder
		for _, e := range p.e {
			k, ok := w.mapKey(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s;", len(k), k)
		}
		return "a" + sb.String(), true
	case *Iface:
		k, ok := w.mapKey(p.v)
		return "i" + p.t.String() + k, ok
	default:
		return fmt.Sprintf("p%p", p), true
	}
}

func newMap() *MapV { return &MapV{idx: map[string]int{}} }

// mapFind gives the entry index, forking on symbolic keys.
func (w *World) mapFind(mv *MapV, kt types.Type, k Val) int {
	if mv == nil {
		return -1
	}
	ks, ok := w.mapKey(k)
	if k.P == nil && isStringT(kt) {
		ks = "s"
	}
	if ok && !mv.symk {
		if i, ok := mv.idx[ks]; ok {
			return i
		}
		return -1
	}
	for i := range mv.keys {
		if mv.del[i] {
			continue
		}
		if w.branch(w.eqVal(kt, mv.keys[i], k)) {
			return i
		}
	}
	return -1
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (w *World) mapSet(mv *MapV, kt types.Type, k, v Val) {
	i := w.mapFind(mv, kt, k)
	if i >= 0 {
		old := mv.vals[i]
		w.undo(func() { mv.vals[i] = old })
		mv.vals[i] = v
		return
	}
	ks, ok := w.mapKey(k)
	if k.P == nil && isStringT(kt) {
		ks = "s"
	}
	n := len(mv.keys)
	oldsym := mv.symk
	w.undo(func() {
		mv.keys, mv.vals, mv.del = mv.keys[:n], mv.vals[:n], mv.del[:n]
		mv.n--
		mv.symk = oldsym
		if ok {
			delete(mv.idx, ks)
		}
	})
	mv.keys = append(mv.keys, k)
	mv.vals = append(mv.vals, v)
	mv.del = append(mv.del, false)
	mv.n++
	if ok {
		mv.idx[ks] = n
	} else {
		mv.symk = true
	}
}

func (w *World) mapDelete(mv *MapV, kt types.Type, k Val) {
	i := w.mapFind(mv, kt, k)
	if i < 0 {
		return
	}
	ks, ok := w.mapKey(mv.keys[i])
	if mv.keys[i].P == nil && isStringT(kt) {
		ks = "s"
	}
	w.undo(func() {
		mv.del[i] = false
		mv.n++
		if ok {
			mv.idx[ks] = i
		}
	})
	mv.del[i] = true
	mv.n--
	if ok {
		delete(mv.idx, ks)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = big.NewInt
