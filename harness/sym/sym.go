// Package sym is the vocabulary of the harnesses. Every function here except Catch is intercepted
// by the symbolic engine (engine/intrin.go); the bodies below are the native meaning, used to
// replay a solver model against the compiled code.
package sym

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"unsafe"

	"gmharness/ref"
)

// Case is one concrete assignment of the inputs.
type Case struct {
	Harness string            `json:"harness"`
	Inputs  map[string]any    `json:"inputs"`
	Choices map[string]int    `json:"choices"`
	Obs     map[string]string `json:"observed,omitempty"`
	Thor    bool              `json:"thorough,omitempty"`
	Curve   int               `json:"curve,omitempty"` // 0: SM2, otherwise a toy curve (native only)
	Search  float64           `json:"-"`               // seconds of native search around the model
}

// Result of a native run.
type Result struct {
	Outcome  string            `json:"outcome"` // ok, fail, assume, panic, timeout
	Failures []string          `json:"failures,omitempty"`
	Panic    string            `json:"panic,omitempty"`
	Obs      map[string]string `json:"observed,omitempty"`
	Asserts  int               `json:"asserts"`
	Missing  []string          `json:"missing,omitempty"`
	Inputs   map[string]any    `json:"inputs,omitempty"` // the inputs that made it fail (native search)
	Choices  map[string]int    `json:"choices,omitempty"`
	Curve    int               `json:"curve,omitempty"`
}

var (
	cur    *Case
	res    *Result
	counts map[string]int
	frozen []frozenObj

	rng  *rand.Rand // native search: inputs are drawn here
	keep float64    // native search: probability of keeping a model value
	used *Case      // native search: the values used
)

// Vary switches native search on for the next run (r nil: off).
func Vary(r *rand.Rand, k float64) { rng, keep = r, k }

// Used gives the inputs of the last run.
func Used() *Case { return used }

type frozenObj struct {
	what string
	v    reflect.Value
	snap string
}

// Stopped is the panic value that ends a native run early.
type Stopped struct{ Why string }

// Begin starts a native run.
func Begin(c *Case) {
	cur, res, counts, frozen = c, &Result{Obs: map[string]string{}}, map[string]int{}, nil
	used = &Case{Harness: c.Harness, Thor: c.Thor, Curve: c.Curve, Inputs: map[string]any{}, Choices: map[string]int{}}
}

// End gives the result of a native run.
func End() *Result { return res }

func name(s string) string {
	n := counts[s]
	counts[s] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", s, n+1)
	}
	return s
}

func num(s string) *big.Int {
	n := name(s)
	v, ok := cur.Inputs[n]
	if rng != nil && (!ok || rng.Float64() >= keep) {
		x := new(big.Int).SetUint64(rng.Uint64() >> uint(rng.Intn(64)))
		if rng.Intn(8) == 0 {
			x.SetInt64(0)
		}
		used.Inputs[n] = x.String()
		return x
	}
	used.Inputs[n] = v
	if !ok {
		res.Missing = append(res.Missing, n)
		return new(big.Int)
	}
	x, _ := new(big.Int).SetString(fmt.Sprint(v), 10)
	if x == nil {
		return new(big.Int)
	}
	return x
}

// Bytes is an arbitrary byte string of length n (n is concrete).
func Bytes(s string, n int) []byte {
	k := name(s)
	b := make([]byte, n)
	v, ok := cur.Inputs[k]
	if rng != nil && (!ok || rng.Float64() >= keep) {
		rng.Read(b)
		switch rng.Intn(10) {
		case 0:
			clear(b)
		case 1:
			clear(b[:n/2])
		case 2:
			if n > 0 {
				clear(b[:n-1])
			}
		case 3:
			if n > 0 {
				b[0] = 0
			}
		}
		used.Inputs[k] = hex.EncodeToString(b)
		return b
	}
	used.Inputs[k] = v
	if !ok {
		res.Missing = append(res.Missing, k)
		return b
	}
	d, _ := hex.DecodeString(fmt.Sprint(v))
	copy(b, d)
	return b
}

func Byte(s string) byte     { return byte(num(s).Uint64()) }
func Uint16(s string) uint16 { return uint16(num(s).Uint64()) }
func Uint32(s string) uint32 { return uint32(num(s).Uint64()) }
func Uint64(s string) uint64 { return num(s).Uint64() }
func Int32(s string) int32   { return int32(num(s).Uint64()) }
func Int64(s string) int64   { return int64(num(s).Uint64()) }
func Int(s string) int       { return int(num(s).Uint64()) }
func Bool(s string) bool     { return num(s).Uint64() == 1 }

// Choose forks the exploration over 0..n-1.
func Choose(s string, n int) int {
	if n <= 0 {
		panic(Stopped{"assume"})
	}
	k := name(s)
	v, ok := cur.Choices[k]
	if rng != nil && (!ok || v >= n) {
		v, ok = rng.Intn(n), true
	}
	used.Choices[k] = v
	if !ok {
		res.Missing = append(res.Missing, k)
	}
	return v
}

// Assume restricts the rest of the path.
func Assume(c bool) {
	if !c {
		panic(Stopped{"assume"})
	}
}

// Stop ends the path (the case is outside the bound).
func Stop() { panic(Stopped{"assume"}) }

// Assert states a property.
func Assert(c bool, msg string) {
	res.Asserts++
	if !c {
		res.Failures = append(res.Failures, msg)
	}
}

// AssertEq states equality of two byte strings.
func AssertEq(a, b []byte, msg string) {
	res.Asserts++
	if string(a) != string(b) {
		res.Failures = append(res.Failures, msg)
	}
}

// BytesEq, And, Or and Not build conditions without forking.
func BytesEq(a, b []byte) bool { return string(a) == string(b) }
func And(a, b bool) bool       { return a && b }
func Or(a, b bool) bool        { return a || b }
func Not(a bool) bool          { return !a }

// Reach is a vacuity witness.
func Reach(tag string) {}

// Observe records a value for comparison between the encoding and the real code.
func Observe(s string, b []byte) { res.Obs[s] = hex.EncodeToString(b) }
func ObserveInt(s string, v int) { res.Obs[s] = fmt.Sprint(uint64(v)) }
func ObserveBool(s string, v bool) {
	if v {
		ObserveInt(s, 1)
	} else {
		ObserveInt(s, 0)
	}
}

// Thorough says whether the thorough tier runs.
func Thorough() bool { return cur.Thor }

// Symbolic is true under the engine.
func Symbolic() bool { return false }

// Concrete makes the engine enumerate the values of v.
func Concrete(v int) int { return v }

// Bound records a stated bound.
func Bound(string) {}

// Freeze declares that the memory reachable from the arguments must not be written from here on.
func Freeze(what string, v ...any) {
	for _, x := range v {
		rv := reflect.ValueOf(x)
		frozen = append(frozen, frozenObj{what, rv, dump(rv, map[uintptr]bool{})})
	}
}

// FreezeGlobals freezes the package-level variables of the module under test (native: no effect).
func FreezeGlobals() {}

// Allow exempts a buffer.
func Allow(b []byte) {}

// Unfreeze ends the frozen section (native: compares).
func Unfreeze() {
	for _, f := range frozen {
		res.Asserts++
		if dump(f.v, map[uintptr]bool{}) != f.snap {
			res.Failures = append(res.Failures, "store to pre-existing memory ("+f.what+")")
		}
	}
	frozen = nil
}

func dump(v reflect.Value, seen map[uintptr]bool) string {
	switch v.Kind() {
	case reflect.Invalid:
		return "nil"
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		if seen[v.Pointer()] {
			return "^"
		}
		seen[v.Pointer()] = true
		return "&" + dump(v.Elem(), seen)
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return v.Elem().Type().String() + dump(v.Elem(), seen)
	case reflect.Slice:
		if v.IsNil() {
			return "[]"
		}
		s := "["
		w := v
		if v.Cap() > v.Len() {
			w = v.Slice3(0, v.Cap(), v.Cap())
		}
		for i := 0; i < w.Len(); i++ {
			s += dump(w.Index(i), seen) + ","
		}
		return s + "]"
	case reflect.Array:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += dump(v.Index(i), seen) + ","
		}
		return s + "]"
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += dump(v.Field(i), seen) + ","
		}
		return s + "}"
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			ks = append(ks, dump(k, seen)+":"+dump(v.MapIndex(k), seen))
		}
		sort.Strings(ks)
		return fmt.Sprint(ks)
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(v.Uint())
	case reflect.String:
		return v.String()
	}
	return v.Kind().String()
}

// Catch runs f and reports whether it panicked (with a short description of the value).
func Catch(f func()) (panicked bool, val any) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(Stopped); ok {
				panic(s)
			}
			panicked, val = true, r
		}
	}()
	f()
	return false, nil
}

// NoPanic asserts that f does not panic.
func NoPanic(what string, f func()) bool {
	p, _ := Catch(f)
	Assert(!p, what+" panics")
	return !p
}

// SkewCounter finds, by comparing hash objects that absorbed n0 and n1 bytes, the field of the
// object that counts bytes (or bits, or blocks) and sets it in h as if n bytes had been absorbed.
func SkewCounter(h, h0 any, n0 uint64, h1 any, n1 uint64, n uint64) bool {
	return skew(reflect.ValueOf(h), reflect.ValueOf(h0), reflect.ValueOf(h1), n0, n1, n) == 1
}

func skew(h, a, b reflect.Value, n0, n1, n uint64) int {
	switch h.Kind() {
	case reflect.Ptr, reflect.Interface:
		if h.IsNil() {
			return 0
		}
		return skew(h.Elem(), a.Elem(), b.Elem(), n0, n1, n)
	case reflect.Struct:
		r := 0
		for i := 0; i < h.NumField(); i++ {
			r += skew(h.Field(i), a.Field(i), b.Field(i), n0, n1, n)
		}
		return r
	case reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64:
		get := func(v reflect.Value) uint64 {
			if v.CanInt() {
				return uint64(v.Int())
			}
			return v.Uint()
		}
		x, y := get(a), get(b)
		var v uint64
		switch {
		case x == n0 && y == n1:
			v = n
		case x == n0*8 && y == n1*8:
			v = n * 8
		case x == n0/64 && y == n1/64:
			v = n / 64
		default:
			return 0
		}
		w := reflect.NewAt(h.Type(), unsafe.Pointer(h.UnsafeAddr())).Elem()
		if w.CanInt() {
			w.SetInt(int64(v))
		} else {
			w.SetUint(v)
		}
		return 1
	}
	return 0
}

func bigNum(s string) (*big.Int, string, bool) {
	n := name(s)
	v, ok := cur.Inputs[n]
	if rng != nil && (!ok || rng.Float64() >= keep) {
		return nil, n, true
	}
	used.Inputs[n] = v
	if !ok {
		res.Missing = append(res.Missing, n)
		return new(big.Int), n, false
	}
	x, _ := new(big.Int).SetString(fmt.Sprint(v), 16)
	if x == nil {
		x = new(big.Int)
	}
	return x, n, false
}

// Big is an arbitrary non-negative integer below 2^bits.
func Big(s string, bits int) *big.Int {
	x, n, draw := bigNum(s)
	if draw {
		x = new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
		if k := rng.Intn(6); k == 0 {
			x.Rsh(x, uint(rng.Intn(bits)))
		}
		used.Inputs[n] = x.Text(16)
	}
	return x
}

// BigIn is an arbitrary integer in [lo,hi], 0 <= lo <= hi constant.
func BigIn(s string, lo, hi *big.Int) *big.Int {
	x, n, draw := bigNum(s)
	if draw {
		d := new(big.Int).Sub(hi, lo)
		x = new(big.Int).Rand(rng, new(big.Int).Add(d, big.NewInt(1)))
		x.Add(x, lo)
		switch rng.Intn(16) {
		case 0:
			x.Set(lo)
		case 1:
			x.Set(hi)
		}
		used.Inputs[n] = x.Text(16)
	}
	if x.Cmp(lo) < 0 || x.Cmp(hi) > 0 {
		panic(Stopped{"assume"})
	}
	return x
}

// BigEq and BigLess compare without forking.
func BigEq(a, b *big.Int) bool   { return a.Cmp(b) == 0 }
func BigLess(a, b *big.Int) bool { return a.Cmp(b) < 0 }

// Hash is SM3; the engine treats it as an uninterpreted function.
func Hash(b []byte) []byte { return ref.SM3(b) }

// StubSM3 makes the engine use Hash for the sm3 package of the code under test.
func StubSM3() {}

// CurveID: natively a counterexample may be confirmed on a small curve, where rare coincidences
// of residues are frequent. 0 is the SM2 curve.
func CurveID() int { return cur.Curve }
