package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota
	OVar
	OUF // uninterpreted function application: name, args
	OXor
	OAnd
	OOr
	OAdd // n-ary sum; args may be OMulC
	OMulC
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OShl
	OLShr
	OAShr
	OConcat  // hi .. lo
	OExtract // k = lo, w = width
	OSExt
	OIte
	OTable // k = table id
	// Bool
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
)

// Term is a hash-consed expression. w==0 means Bool, otherwise a bit vector of w bits.
type Term struct {
	op   Op
	w    int
	id   int
	args []*Term
	k    uint64   // const value (w<=64), extract low bit, table id, bool const
	b    *big.Int // const value when w>64; coefficient for wide OMulC
	name string

	// evaluation cache
	egen int
	eok  bool
	ev   uint64
	eb   *big.Int
	// printed in solver generation
	pgen int
	// does it contain UF applications / which variables: lazily
}

func (t *Term) isConst() bool { return t.op == OConst }

type TM struct {
	next      int
	tab       map[string]*Term
	tables    [][]uint64
	tabWid    []int
	tabIdx    map[string]int
	gen       int // evaluation generation
	T, F      *Term
	vars      []*Term
	keybuf    []byte
	fresh     int
	nTerms    int
	lem       *lemmaRec
	canonBits bool
	recDeep   bool
	bitVars   map[int]*Term
	xorCap    int // sums longer than this are nested, not flattened
}

func NewTM() *TM {
	m := &TM{tab: make(map[string]*Term, 1<<12), tabIdx: map[string]int{}, xorCap: xorSmall}
	m.T = m.mk(OConst, 0, nil, 1, nil, "")
	m.F = m.mk(OConst, 0, nil, 0, nil, "")
	return m
}

func app64(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func (m *TM) mk(op Op, w int, args []*Term, k uint64, bg *big.Int, name string) *Term {
	kb := m.keybuf[:0]
	kb = append(kb, byte(op))
	kb = app64(kb, uint64(w))
	kb = app64(kb, k)
	if bg != nil {
		kb = append(kb, 'B')
		kb = append(kb, bg.Bytes()...)
		kb = append(kb, '|')
	}
	if name != "" {
		kb = append(kb, 'N')
		kb = append(kb, name...)
		kb = append(kb, 0)
	}
	for _, a := range args {
		kb = app64(kb, uint64(a.id))
	}
	m.keybuf = kb
	if t, ok := m.tab[string(kb)]; ok {
		return t
	}
	t := &Term{op: op, w: w, args: args, k: k, b: bg, name: name, id: m.next}
	m.next++
	m.tab[string(kb)] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

var bigOne = big.NewInt(1)

func bigMask(w int) *big.Int {
	x := new(big.Int).Lsh(bigOne, uint(w))
	return x.Sub(x, bigOne)
}

func (m *TM) Bool(b bool) *Term {
	if b {
		return m.T
	}
	return m.F
}

func (m *TM) C(w int, v uint64) *Term {
	if w == 0 {
		return m.Bool(v != 0)
	}
	if w > 64 {
		return m.BigC(w, new(big.Int).SetUint64(v))
	}
	return m.mk(OConst, w, nil, v&mask(w), nil, "")
}

func (m *TM) BigC(w int, v *big.Int) *Term {
	x := v
	if v.Sign() < 0 || v.BitLen() > w {
		x = new(big.Int).And(v, bigMask(w))
	}
	if w <= 64 {
		return m.mk(OConst, w, nil, x.Uint64(), nil, "")
	}
	return m.mk(OConst, w, nil, 0, x, "")
}

func (t *Term) bigVal() *big.Int {
	if t.w > 64 {
		return t.b
	}
	return new(big.Int).SetUint64(t.k)
}

func (m *TM) Var(w int, name string) *Term {
	n := m.next
	t := m.mk(OVar, w, nil, 0, nil, name)
	if t.id == n {
		m.vars = append(m.vars, t)
	}
	return t
}

func (m *TM) Fresh(w int, pfx string) *Term {
	m.fresh++
	return m.Var(w, fmt.Sprintf("%s!%d", pfx, m.fresh))
}

func (m *TM) UF(w int, name string, args ...*Term) *Term {
	return m.mk(OUF, w, append([]*Term(nil), args...), 0, nil, name)
}

func (t *Term) isZero() bool {
	if t.op != OConst {
		return false
	}
	if t.w > 64 {
		return t.b.Sign() == 0
	}
	return t.k == 0
}

func (t *Term) isOnes() bool {
	if t.op != OConst {
		return false
	}
	if t.w > 64 {
		return t.b.Cmp(bigMask(t.w)) == 0
	}
	return t.k == mask(t.w)
}

func (m *TM) ones(w int) *Term {
	if w <= 64 {
		return m.C(w, mask(w))
	}
	return m.BigC(w, bigMask(w))
}

// ---------- segments (concat normal form) ----------

type seg struct {
	t  *Term // nil: zero bits
	lo int
	n  int
}

// segsOf gives the pieces of t from high to low.
func (m *TM) segsOf(t *Term) []seg {
	switch t.op {
	case OConcat:
		out := make([]seg, 0, len(t.args))
		for _, a := range t.args {
			out = append(out, seg{a, 0, a.w})
		}
		return out
	}
	return []seg{{t, 0, t.w}}
}

func (m *TM) Concat(parts ...*Term) (res *Term) {
	if m.lem != nil {
		defer m.rec(OConcat, 0, 0, nil, append([]*Term(nil), parts...), &res)
	}
	flat := make([]*Term, 0, len(parts))
	for _, p := range parts {
		if p.w == 0 {
			panic("concat of bool")
		}
		if p.op == OConcat {
			flat = append(flat, p.args...)
		} else {
			flat = append(flat, p)
		}
	}
	// merge adjacent
	out := flat[:0:0]
	for _, p := range flat {
		if n := len(out); n > 0 {
			q := out[n-1]
			if q.isConst() && p.isConst() {
				w := q.w + p.w
				if w <= 64 {
					out[n-1] = m.C(w, q.k<<uint(p.w)|p.k)
				} else {
					v := new(big.Int).Lsh(q.bigVal(), uint(p.w))
					out[n-1] = m.BigC(w, v.Or(v, p.bigVal()))
				}
				continue
			}
			// extract(x,hi..) ++ extract(x,..lo)
			if q.op == OExtract && int(q.k) >= p.w && (p.op == OExtract || p.op == OAdd || p.op == OMulC || int(q.k) == p.w) {
				b, lo := q.args[0], int(q.k)-p.w
				if p.op == OExtract && p.args[0] == b {
					if int(p.k) == lo {
						out[n-1] = m.Extract(b, lo, q.w+p.w)
						continue
					}
				} else if m.Extract(b, lo, p.w) == p {
					out[n-1] = m.Extract(b, lo, q.w+p.w)
					continue
				}
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, p := range out {
		w += p.w
	}
	return m.mk(OConcat, w, append([]*Term(nil), out...), 0, nil, "")
}

func (m *TM) Extract(t *Term, lo, n int) (res *Term) {
	if m.lem != nil {
		defer m.rec(OExtract, n, uint64(lo), nil, []*Term{t}, &res)
	}
	if lo == 0 && n == t.w {
		return t
	}
	if lo < 0 || n <= 0 || lo+n > t.w {
		panic(fmt.Sprintf("extract [%d+%d) of %d", lo, n, t.w))
	}
	switch t.op {
	case OConst:
		if t.w <= 64 {
			return m.C(n, t.k>>uint(lo))
		}
		return m.BigC(n, new(big.Int).Rsh(t.b, uint(lo)))
	case OExtract:
		return m.Extract(t.args[0], int(t.k)+lo, n)
	case OConcat:
		// pick pieces
		var parts []*Term
		pos := t.w
		hi := lo + n
		for _, a := range t.args {
			alo := pos - a.w
			// overlap of [lo,hi) and [alo,pos)
			l, h := lo, hi
			if alo > l {
				l = alo
			}
			if pos < h {
				h = pos
			}
			if l < h {
				parts = append(parts, m.Extract(a, l-alo, h-l))
			}
			pos = alo
		}
		return m.Concat(parts...)
	case OSExt:
		a := t.args[0]
		if lo+n <= a.w {
			return m.Extract(a, lo, n)
		}
	case OXor, OAnd, OOr:
		// push when every argument is constant or a concat with a piece boundary at both ends
		// (bytes assembled into words), or for a constant and one other argument
		c := 0
		for _, a := range t.args {
			if a.op != OConst && !(a.op == OConcat && aligned(a, lo, n)) {
				c++
			}
		}
		if c == 0 || (len(t.args) == 2 && c <= 1 && t.args[0].op == OConst) {
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = m.Extract(a, lo, n)
			}
			return m.nary(t.op, n, as)
		}
	case OIte:
		if t.args[1].isConst() || t.args[2].isConst() {
			return m.Ite(t.args[0], m.Extract(t.args[1], lo, n), m.Extract(t.args[2], lo, n))
		}
	case OAdd:
		if lo == 0 {
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = m.Extract(a, 0, n)
			}
			return m.Add(as...)
		}
		if lo+n < t.w { // the bits above do not matter
			return m.Extract(m.Extract(t, 0, lo+n), lo, n)
		}
	case OMulC, OMul:
		if lo == 0 {
			if t.op == OMul {
				return m.Mul(m.Extract(t.args[0], 0, n), m.Extract(t.args[1], 0, n))
			}
			return m.mulC(t.coef(), m.Extract(t.args[0], 0, n))
		}
		if lo+n < t.w {
			return m.Extract(m.Extract(t, 0, lo+n), lo, n)
		}
	}
	return m.mk(OExtract, n, []*Term{t}, uint64(lo), nil, "")
}

// aligned says whether [lo,lo+n) starts and ends at piece boundaries of the concat t.
func aligned(t *Term, lo, n int) bool {
	l, h := lo == 0, lo+n == t.w
	pos := t.w
	for _, a := range t.args {
		pos -= a.w
		if pos == lo {
			l = true
		}
		if pos == lo+n {
			h = true
		}
	}
	return l && h
}

func (m *TM) ZExt(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	if w < t.w {
		return m.Extract(t, 0, w)
	}
	return m.Concat(m.C(w-t.w, 0), t)
}

func (m *TM) topZero(t *Term) bool { // sign bit known zero
	switch t.op {
	case OConst:
		if t.w <= 64 {
			return t.k>>(uint(t.w)-1) == 0
		}
		return t.b.Bit(t.w-1) == 0
	case OConcat:
		return m.topZero(t.args[0])
	case OIte:
		return m.topZero(t.args[1]) && m.topZero(t.args[2])
	}
	return false
}

func (m *TM) SExt(t *Term, w int) (res *Term) {
	if m.lem != nil {
		defer m.rec(OSExt, w, 0, nil, []*Term{t}, &res)
	}
	if w == t.w {
		return t
	}
	if w < t.w {
		return m.Extract(t, 0, w)
	}
	if m.topZero(t) {
		return m.ZExt(t, w)
	}
	if t.op == OConst {
		if t.w <= 64 && w <= 64 {
			return m.C(w, uint64(int64(t.k<<(64-uint(t.w)))>>(64-uint(t.w))))
		}
		v := new(big.Int).Set(t.bigVal())
		if v.Bit(t.w-1) == 1 {
			v.Sub(v, new(big.Int).Lsh(bigOne, uint(t.w)))
		}
		return m.BigC(w, v)
	}
	if t.op == OSExt {
		return m.SExt(t.args[0], w)
	}
	return m.mk(OSExt, w, []*Term{t}, 0, nil, "")
}

// ---------- bitwise ----------

func (m *TM) nary(op Op, w int, as []*Term) *Term {
	switch op {
	case OXor:
		return m.Xor(as...)
	case OAnd:
		return m.And(as...)
	case OOr:
		return m.Or(as...)
	}
	panic("nary")
}

// splitAligned rewrites a bitwise operation over concats by common boundaries; returns nil if not useful.
func (m *TM) splitAligned(op Op, as []*Term) *Term {
	// useful only if every arg is a concat or const, and at least one concat
	w := as[0].w
	nc := 0
	for _, a := range as {
		if a.op == OConcat {
			nc++
		} else if a.op != OConst {
			// single non-concat arg is only ok when the others have constant segments of absorbing kind
			return nil
		}
	}
	if nc == 0 {
		return nil
	}
	cuts := map[int]bool{}
	for _, a := range as {
		if a.op == OConcat {
			pos := a.w
			for _, x := range a.args {
				pos -= x.w
				if pos > 0 {
					cuts[pos] = true
				}
			}
		}
	}
	cl := make([]int, 0, len(cuts)+1)
	for c := range cuts {
		cl = append(cl, c)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cl)))
	cl = append(cl, 0)
	var parts []*Term
	hi := w
	// profitability: a segment where at most one argument is non-constant, or nc==... otherwise leave
	good := false
	for _, lo := range cl {
		n := 0
		for _, a := range as {
			if !m.Extract(a, lo, hi-lo).isConst() {
				n++
			}
		}
		if n <= 1 {
			good = true
		}
		hi = lo
	}
	if !good {
		return nil
	}
	hi = w
	for _, lo := range cl {
		xs := make([]*Term, len(as))
		for i, a := range as {
			xs[i] = m.Extract(a, lo, hi-lo)
		}
		parts = append(parts, m.nary(op, hi-lo, xs))
		hi = lo
	}
	return m.Concat(parts...)
}

func sortTerms(a []*Term) {
	if len(a) <= 12 {
		for i := 1; i < len(a); i++ {
			for j := i; j > 0 && a[j-1].id > a[j].id; j-- {
				a[j-1], a[j] = a[j], a[j-1]
			}
		}
		return
	}
	sort.Slice(a, func(i, j int) bool { return a[i].id < a[j].id })
}

func bvConstOp(op Op, w int, x, y *Term) func(*TM) *Term {
	return func(m *TM) *Term {
		if w <= 64 {
			switch op {
			case OXor:
				return m.C(w, x.k^y.k)
			case OAnd:
				return m.C(w, x.k&y.k)
			case OOr:
				return m.C(w, x.k|y.k)
			}
		}
		r := new(big.Int)
		switch op {
		case OXor:
			r.Xor(x.b, y.b)
		case OAnd:
			r.And(x.b, y.b)
		case OOr:
			r.Or(x.b, y.b)
		}
		return m.BigC(w, r)
	}
}

func (m *TM) Xor(as ...*Term) (res *Term) {
	if m.lem != nil {
		defer m.rec(OXor, as[0].w, 0, nil, append([]*Term(nil), as...), &res)
	}
	w := as[0].w
	c := m.C(w, 0)
	flat := make([]*Term, 0, len(as)+4)
	var big []*Term
	open := func(a *Term) {
		for _, x := range a.args {
			if x.isConst() {
				c = bvConstOp(OXor, w, c, x)(m)
			} else {
				flat = append(flat, x)
			}
		}
	}
	for _, a := range as {
		if a.op == OXor {
			if len(a.args) > m.xorCap {
				big = append(big, a)
			} else {
				open(a)
			}
		} else if a.isConst() {
			c = bvConstOp(OXor, w, c, a)(m)
		} else {
			flat = append(flat, a)
		}
	}
	// a long sum is opened only where something in it cancels
	for i, a := range big {
		hit := false
		for _, x := range a.args {
			for _, y := range flat {
				if x == y || y == a {
					hit = true
				}
			}
			for j, o := range big {
				if j != i {
					for _, y := range o.args {
						if x == y || x == o || y == a {
							hit = true
						}
					}
				}
			}
		}
		if hit {
			open(a)
		} else {
			flat = append(flat, a)
		}
	}
	sortTerms(flat)
	out := flat[:0]
	for i := 0; i < len(flat); {
		j := i
		for j < len(flat) && flat[j] == flat[i] {
			j++
		}
		if (j-i)%2 == 1 {
			out = append(out, flat[i])
		}
		i = j
	}
	if len(out) == 0 {
		return c
	}
	if c.isZero() {
		if len(out) == 1 {
			return out[0]
		}
	} else {
		out = append([]*Term{c}, out...)
	}
	if s := m.splitAligned(OXor, out); s != nil {
		return s
	}
	return m.mk(OXor, w, append([]*Term(nil), out...), 0, nil, "")
}

func (m *TM) Not(a *Term) *Term { return m.Xor(m.ones(a.w), a) }

func constRuns(w int, v *Term) []seg { // runs of ones/zeros hi..lo; t non-nil marks ones
	var out []seg
	bit := func(i int) uint {
		if w <= 64 {
			return uint(v.k>>uint(i)) & 1
		}
		return v.b.Bit(i)
	}
	i := w - 1
	for i >= 0 {
		b := bit(i)
		j := i
		for j >= 0 && bit(j) == b {
			j--
		}
		s := seg{nil, j + 1, i - j}
		if b == 1 {
			s.t = v
		}
		out = append(out, s)
		i = j
	}
	return out
}

func (m *TM) And(as ...*Term) (res *Term) {
	if m.lem != nil {
		defer m.rec(OAnd, as[0].w, 0, nil, append([]*Term(nil), as...), &res)
	}
	w := as[0].w
	c := m.ones(w)
	flat := make([]*Term, 0, len(as)+4)
	for _, a := range as {
		if a.op == OAnd {
			for _, x := range a.args {
				if x.isConst() {
					c = bvConstOp(OAnd, w, c, x)(m)
				} else {
					flat = append(flat, x)
				}
			}
		} else if a.isConst() {
			c = bvConstOp(OAnd, w, c, a)(m)
		} else {
			flat = append(flat, a)
		}
	}
	if c.isZero() {
		return c
	}
	sortTerms(flat)
	out := flat[:0]
	for i, a := range flat {
		if i > 0 && flat[i-1] == a {
			continue
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return c
	}
	if !c.isOnes() {
		runs := constRuns(w, c)
		if len(runs) <= 5 {
			inner := m.And(append([]*Term(nil), out...)...)
			parts := make([]*Term, len(runs))
			for i, r := range runs {
				if r.t == nil {
					parts[i] = m.C(r.n, 0)
				} else {
					parts[i] = m.Extract(inner, r.lo, r.n)
				}
			}
			return m.Concat(parts...)
		}
		out = append([]*Term{c}, out...)
	}
	if len(out) == 1 {
		return out[0]
	}
	if s := m.splitAligned(OAnd, out); s != nil {
		return s
	}
	return m.mk(OAnd, w, append([]*Term(nil), out...), 0, nil, "")
}

func (m *TM) Or(as ...*Term) (res *Term) {
	if m.lem != nil {
		defer m.rec(OOr, as[0].w, 0, nil, append([]*Term(nil), as...), &res)
	}
	w := as[0].w
	c := m.C(w, 0)
	flat := make([]*Term, 0, len(as)+4)
	for _, a := range as {
		if a.op == OOr {
			for _, x := range a.args {
				if x.isConst() {
					c = bvConstOp(OOr, w, c, x)(m)
				} else {
					flat = append(flat, x)
				}
			}
		} else if a.isConst() {
			c = bvConstOp(OOr, w, c, a)(m)
		} else {
			flat = append(flat, a)
		}
	}
	if c.isOnes() {
		return c
	}
	sortTerms(flat)
	out := flat[:0]
	for i, a := range flat {
		if i > 0 && flat[i-1] == a {
			continue
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return c
	}
	if !c.isZero() {
		runs := constRuns(w, c)
		if len(runs) <= 5 {
			var inner *Term
			if len(out) == 1 {
				inner = out[0]
			} else {
				inner = m.Or(append([]*Term(nil), out...)...)
			}
			parts := make([]*Term, len(runs))
			for i, r := range runs {
				if r.t != nil {
					parts[i] = m.ones(r.n)
				} else {
					parts[i] = m.Extract(inner, r.lo, r.n)
				}
			}
			return m.Concat(parts...)
		}
		out = append([]*Term{c}, out...)
	}
	if len(out) == 1 {
		return out[0]
	}
	if s := m.splitAligned(OOr, out); s != nil {
		return s
	}
	return m.mk(OOr, w, append([]*Term(nil), out...), 0, nil, "")
}

// ---------- arithmetic ----------

func (t *Term) coef() *big.Int {
	if t.b != nil {
		return t.b
	}
	return new(big.Int).SetUint64(t.k)
}

func (m *TM) mulC(c *big.Int, t *Term) (res *Term) {
	if m.lem != nil {
		defer m.rec(OMulC, t.w, 0, new(big.Int).And(c, bigMask(t.w)), []*Term{t}, &res)
	}
	w := t.w
	c = new(big.Int).And(c, bigMask(w))
	if c.Sign() == 0 {
		return m.C(w, 0)
	}
	if t.isConst() {
		return m.BigC(w, new(big.Int).Mul(c, t.bigVal()))
	}
	if c.Cmp(bigOne) == 0 {
		return t
	}
	if t.op == OMulC {
		return m.mulC(new(big.Int).Mul(c, t.coef()), t.args[0])
	}
	if t.op == OAdd {
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = m.mulC(c, a)
		}
		return m.Add(as...)
	}
	if w <= 64 {
		return m.mk(OMulC, w, []*Term{t}, c.Uint64(), nil, "")
	}
	return m.mk(OMulC, w, []*Term{t}, 0, c, "")
}

func (m *TM) Neg(t *Term) *Term { return m.mulC(bigMask(t.w), t) }
func (m *TM) Sub(a, b *Term) *Term {
	if a == b {
		return m.C(a.w, 0)
	}
	return m.Add(a, m.Neg(b))
}

func (m *TM) Add(as ...*Term) (res *Term) {
	if m.lem != nil {
		defer m.rec(OAdd, as[0].w, 0, nil, append([]*Term(nil), as...), &res)
	}
	w := as[0].w
	if len(as) == 2 && as[0].isConst() && as[1].isConst() {
		if w <= 64 {
			return m.C(w, as[0].k+as[1].k)
		}
	}
	if w <= 64 {
		var c uint64
		flat := make([]*Term, 0, len(as)+4)
		for _, a := range as {
			if a.op == OAdd {
				for _, x := range a.args {
					if x.isConst() {
						c += x.k
					} else {
						flat = append(flat, x)
					}
				}
			} else if a.isConst() {
				c += a.k
			} else {
				flat = append(flat, a)
			}
		}
		base := func(t *Term) (*Term, uint64) {
			if t.op == OMulC {
				return t.args[0], t.k
			}
			return t, 1
		}
		// order by base id
		if len(flat) > 1 {
			sort.SliceStable(flat, func(i, j int) bool {
				a, _ := base(flat[i])
				b, _ := base(flat[j])
				return a.id < b.id
			})
		}
		out := make([]*Term, 0, len(flat)+1)
		c &= mask(w)
		for i := 0; i < len(flat); {
			b0, k := base(flat[i])
			j := i + 1
			for j < len(flat) {
				b1, k1 := base(flat[j])
				if b1 != b0 {
					break
				}
				k += k1
				j++
			}
			k &= mask(w)
			if j == i+1 {
				out = append(out, flat[i])
			} else if k != 0 {
				out = append(out, m.mulC(new(big.Int).SetUint64(k), b0))
			}
			i = j
		}
		if c != 0 {
			out = append([]*Term{m.C(w, c)}, out...)
		}
		if len(out) == 0 {
			return m.C(w, 0)
		}
		if len(out) == 1 {
			return out[0]
		}
		// disjoint concats: treat as or
		if len(out) == 2 && (out[0].op == OConcat || out[1].op == OConcat) && m.disjoint(out[0], out[1]) {
			return m.Or(out...)
		}
		return m.mk(OAdd, w, out, 0, nil, "")
	}
	// wide
	c := new(big.Int)
	coef := map[*Term]*big.Int{}
	var order []*Term
	var add func(a *Term, k *big.Int)
	add = func(a *Term, k *big.Int) {
		switch {
		case a.op == OAdd:
			for _, x := range a.args {
				add(x, k)
			}
		case a.op == OMulC:
			add(a.args[0], new(big.Int).Mul(k, a.coef()))
		case a.isConst():
			c.Add(c, new(big.Int).Mul(k, a.bigVal()))
		default:
			if o, ok := coef[a]; ok {
				coef[a] = new(big.Int).Add(o, k)
			} else {
				coef[a] = k
				order = append(order, a)
			}
		}
	}
	for _, a := range as {
		add(a, bigOne)
	}
	sortTerms(order)
	var out []*Term
	if cc := m.BigC(w, c); !cc.isZero() {
		out = append(out, cc)
	}
	for _, a := range order {
		x := m.mulC(coef[a], a)
		if !x.isZero() {
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return m.C(w, 0)
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) == 2 && (out[0].op == OConcat || out[1].op == OConcat) && m.disjoint(out[0], out[1]) {
		return m.Or(out...)
	}
	return m.mk(OAdd, w, out, 0, nil, "")
}

func (m *TM) disjoint(a, b *Term) bool {
	if a.op != OConcat && a.op != OConst || b.op != OConcat && b.op != OConst {
		return false
	}
	// bit-exact check on constant zero segments
	za := m.zeroMask(a)
	zb := m.zeroMask(b)
	or := new(big.Int).Or(za, zb)
	return or.Cmp(bigMask(a.w)) == 0
}

func (m *TM) zeroMask(a *Term) *big.Int {
	r := new(big.Int)
	if a.op == OConst {
		return r.Xor(a.bigVal(), bigMask(a.w))
	}
	if a.op != OConcat {
		return r
	}
	for _, x := range a.args {
		r.Lsh(r, uint(x.w))
		if x.op == OConst {
			r.Or(r, new(big.Int).Xor(x.bigVal(), bigMask(x.w)))
		}
	}
	return r
}

func (m *TM) Mul(a, b *Term) (res *Term) {
	if m.lem != nil {
		defer m.rec(OMul, a.w, 0, nil, []*Term{a, b}, &res)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		c := b.bigVal()
		if n := c.BitLen(); c.Sign() > 0 && n-1 == int(c.TrailingZeroBits()) {
			return m.shlC(a, n-1)
		}
		return m.mulC(c, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return m.mk(OMul, a.w, []*Term{a, b}, 0, nil, "")
}

func (m *TM) shlC(a *Term, n int) *Term {
	if n == 0 {
		return a
	}
	if n >= a.w {
		return m.C(a.w, 0)
	}
	return m.Concat(m.Extract(a, 0, a.w-n), m.C(n, 0))
}
func (m *TM) lshrC(a *Term, n int) *Term {
	if n == 0 {
		return a
	}
	if n >= a.w {
		return m.C(a.w, 0)
	}
	return m.Concat(m.C(n, 0), m.Extract(a, n, a.w-n))
}
func (m *TM) ashrC(a *Term, n int) *Term {
	if n >= a.w {
		n = a.w - 1
	}
	if n == 0 {
		return a
	}
	return m.SExt(m.Extract(a, n, a.w-n), a.w)
}

// Shl etc: b has the same width as a.
func (m *TM) Shift(op Op, a, b *Term) (res *Term) {
	if m.lem != nil {
		defer m.rec(op, a.w, 0, nil, []*Term{a, b}, &res)
	}
	if b.isConst() {
		n := a.w
		if v := b.bigVal(); v.IsInt64() && v.Int64() < int64(a.w) {
			n = int(v.Int64())
		}
		switch op {
		case OShl:
			return m.shlC(a, n)
		case OLShr:
			return m.lshrC(a, n)
		default:
			return m.ashrC(a, n)
		}
	}
	if a.isZero() {
		return a
	}
	return m.mk(op, a.w, []*Term{a, b}, 0, nil, "")
}

func signed(v uint64, w int) int64 { return int64(v<<(64-uint(w))) >> (64 - uint(w)) }

// Div and rem; b assumed nonzero.
func (m *TM) DivRem(op Op, a, b *Term) (res *Term) {
	if m.lem != nil {
		defer m.rec(op, a.w, 0, nil, []*Term{a, b}, &res)
	}
	if a.isConst() && b.isConst() && !b.isZero() && a.w <= 64 {
		w := a.w
		switch op {
		case OUDiv:
			return m.C(w, a.k/b.k)
		case OURem:
			return m.C(w, a.k%b.k)
		case OSDiv:
			x, y := signed(a.k, w), signed(b.k, w)
			if y == -1 {
				return m.C(w, uint64(-x))
			}
			return m.C(w, uint64(x/y))
		case OSRem:
			x, y := signed(a.k, w), signed(b.k, w)
			if y == -1 {
				return m.C(w, 0)
			}
			return m.C(w, uint64(x%y))
		}
	}
	if b.isConst() {
		v := b.bigVal()
		pow2 := v.Sign() > 0 && v.BitLen()-1 == int(v.TrailingZeroBits())
		if (op == OSDiv || op == OSRem) && m.topZero(a) && m.topZero(b) {
			if op == OSDiv {
				op = OUDiv
			} else {
				op = OURem
			}
		}
		if pow2 {
			n := v.BitLen() - 1
			if op == OUDiv {
				return m.lshrC(a, n)
			}
			if op == OURem {
				if n == 0 {
					return m.C(a.w, 0)
				}
				return m.ZExt(m.Extract(a, 0, n), a.w)
			}
		}
	}
	return m.mk(op, a.w, []*Term{a, b}, 0, nil, "")
}

// ---------- bool ----------

func (m *TM) BNot(a *Term) (res *Term) {
	if m.lem != nil {
		defer m.rec(OBNot, 0, 0, nil, []*Term{a}, &res)
	}
	if a.op == OConst {
		return m.Bool(a.k == 0)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	if a.op == OUlt {
		return m.mk(OUle, 0, []*Term{a.args[1], a.args[0]}, 0, nil, "")
	}
	if a.op == OUle {
		return m.mk(OUlt, 0, []*Term{a.args[1], a.args[0]}, 0, nil, "")
	}
	if a.op == OSlt {
		return m.mk(OSle, 0, []*Term{a.args[1], a.args[0]}, 0, nil, "")
	}
	if a.op == OSle {
		return m.mk(OSlt, 0, []*Term{a.args[1], a.args[0]}, 0, nil, "")
	}
	return m.mk(OBNot, 0, []*Term{a}, 0, nil, "")
}

func (m *TM) BAnd(as ...*Term) *Term { return m.bnary(OBAnd, as) }
func (m *TM) BOr(as ...*Term) *Term  { return m.bnary(OBOr, as) }

func (m *TM) bnary(op Op, as []*Term) (res *Term) {
	if m.lem != nil && len(as) > 0 {
		defer m.rec(op, 0, 0, nil, append([]*Term(nil), as...), &res)
	}
	unit, zero := m.T, m.F
	if op == OBOr {
		unit, zero = m.F, m.T
	}
	flat := make([]*Term, 0, len(as)+4)
	for _, a := range as {
		if a == zero {
			return zero
		}
		if a == unit {
			continue
		}
		if a.op == op {
			flat = append(flat, a.args...)
		} else {
			flat = append(flat, a)
		}
	}
	sortTerms(flat)
	out := flat[:0]
	for i, a := range flat {
		if i > 0 && flat[i-1] == a {
			continue
		}
		out = append(out, a)
	}
	if len(out) > 1 && len(out) <= 64 {
		set := make(map[*Term]bool, len(out))
		for _, a := range out {
			set[a] = true
		}
		for _, a := range out {
			if set[m.BNot(a)] {
				return zero
			}
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return m.mk(op, 0, append([]*Term(nil), out...), 0, nil, "")
}

func (m *TM) Eq(a, b *Term) (res *Term) {
	if m.lem != nil {
		defer m.rec(OEq, 0, 0, nil, []*Term{a, b}, &res)
	}
	if a == b {
		return m.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq widths %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return m.F
	}
	if a.w == 0 {
		if a == m.T {
			return b
		}
		if b == m.T {
			return a
		}
		if a == m.F {
			return m.BNot(b)
		}
		if b == m.F {
			return m.BNot(a)
		}
		if m.BNot(a) == b {
			return m.F
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OConcat:
			parts := make([]*Term, 0, len(a.args))
			pos := a.w
			for _, x := range a.args {
				pos -= x.w
				e := m.Eq(x, m.Extract(b, pos, x.w))
				if e == m.F {
					return m.F
				}
				parts = append(parts, e)
			}
			return m.BAnd(parts...)
		case OXor:
			if a.args[0].isConst() {
				return m.Eq(m.Xor(a.args[1:]...), m.Xor(a.args[0], b))
			}
		case OAdd:
			if a.args[0].isConst() {
				return m.Eq(m.Add(a.args[1:]...), m.Sub(b, a.args[0]))
			}
		case OSExt:
			x := a.args[0]
			lo := m.Extract(b, 0, x.w)
			if m.SExt(lo, a.w) != b {
				return m.F
			}
			return m.Eq(x, lo)
		case OIte:
			e1, e2 := m.Eq(a.args[1], b), m.Eq(a.args[2], b)
			if e1.isConst() || e2.isConst() {
				return m.Ite(a.args[0], e1, e2)
			}
		}
		if a.op == OMulC && a.w <= 64 && a.k&1 == 1 {
			// multiply by inverse
			inv := uint64(1)
			for i := 0; i < 6; i++ {
				inv *= 2 - a.k*inv
			}
			return m.Eq(a.args[0], m.C(a.w, inv*b.k))
		}
	} else {
		if a.op == OConcat && b.op == OConcat {
			// split on common boundaries
			if len(a.args) == len(b.args) {
				same := true
				for i := range a.args {
					if a.args[i].w != b.args[i].w {
						same = false
						break
					}
				}
				if same {
					parts := make([]*Term, 0, len(a.args))
					for i := range a.args {
						parts = append(parts, m.Eq(a.args[i], b.args[i]))
					}
					return m.BAnd(parts...)
				}
			}
			pa, pb := a.args[0], b.args[0]
			n := pa.w
			if pb.w < n {
				n = pb.w
			}
			if pa.isConst() && pb.isConst() {
				// compare the common leading constant part
				if m.Extract(pa, pa.w-n, n) != m.Extract(pb, pb.w-n, n) {
					return m.F
				}
				return m.Eq(m.Extract(a, 0, a.w-n), m.Extract(b, 0, b.w-n))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return m.mk(OEq, 0, []*Term{a, b}, 0, nil, "")
}

func (m *TM) Ult(a, b *Term) (res *Term) {
	if m.lem != nil {
		defer m.rec(OUlt, 0, 0, nil, []*Term{a, b}, &res)
	}
	if a == b || b.isZero() {
		return m.F
	}
	if a.isConst() && b.isConst() {
		return m.Bool(a.bigVal().Cmp(b.bigVal()) < 0)
	}
	// strip common leading zero bits
	lz := func(t *Term) int {
		if t.op == OConst {
			return t.w - t.bigVal().BitLen()
		}
		if t.op == OConcat && t.args[0].isZero() {
			return t.args[0].w
		}
		return 0
	}
	la, lb := lz(a), lz(b)
	n := la
	if lb < n {
		n = lb
	}
	if n >= a.w {
		n = a.w - 1
	}
	if a.isConst() && la > lb || b.isConst() && lb > la { // constant fits; compare in the narrower width of the non-const
	}
	if b.isConst() && la > lb { // b has a bit above a's range
		return m.T
	}
	if a.isConst() && lb > la {
		return m.F
	}
	if n > 0 {
		return m.Ult(m.Extract(a, 0, a.w-n), m.Extract(b, 0, b.w-n))
	}
	if b.isConst() && b.bigVal().Cmp(bigOne) == 0 {
		return m.Eq(a, m.C(a.w, 0))
	}
	if a.isZero() {
		return m.BNot(m.Eq(b, a))
	}
	return m.mk(OUlt, 0, []*Term{a, b}, 0, nil, "")
}

func (m *TM) Ule(a, b *Term) *Term { return m.BNot(m.Ult(b, a)) }

func (m *TM) Slt(a, b *Term) (res *Term) {
	if m.lem != nil {
		defer m.rec(OSlt, 0, 0, nil, []*Term{a, b}, &res)
	}
	if a == b {
		return m.F
	}
	ta, tb := m.topZero(a), m.topZero(b)
	if ta && tb {
		return m.Ult(a, b)
	}
	if a.isConst() && b.isConst() {
		sa, sb := m.toSigned(a), m.toSigned(b)
		return m.Bool(sa.Cmp(sb) < 0)
	}
	if b.isConst() && constIte(a, 4) {
		return m.Ite(a.args[0], m.Slt(a.args[1], b), m.Slt(a.args[2], b))
	}
	if a.isConst() && constIte(b, 4) {
		return m.Ite(b.args[0], m.Slt(a, b.args[1]), m.Slt(a, b.args[2]))
	}
	if b.isConst() && !tb && ta {
		return m.F
	}
	if a.isConst() && !ta && tb {
		return m.T
	}
	if a.op == OSExt && b.isConst() || b.op == OSExt && a.isConst() {
		x := a
		if b.op == OSExt {
			x = b
		}
		w := x.args[0].w
		c := b
		if a.isConst() {
			c = a
		}
		lo := m.Extract(c, 0, w)
		if m.SExt(lo, x.w) == c {
			if a.isConst() {
				return m.Slt(lo, x.args[0])
			}
			return m.Slt(x.args[0], lo)
		}
	}
	return m.mk(OSlt, 0, []*Term{a, b}, 0, nil, "")
}

// constIte: an if-then-else tree of constants.
func constIte(t *Term, d int) bool {
	if t.op != OIte || d == 0 {
		return false
	}
	for _, a := range t.args[1:] {
		if !a.isConst() && !constIte(a, d-1) {
			return false
		}
	}
	return true
}

func (m *TM) Sle(a, b *Term) *Term { return m.BNot(m.Slt(b, a)) }

func (m *TM) toSigned(a *Term) *big.Int {
	v := new(big.Int).Set(a.bigVal())
	if v.Bit(a.w-1) == 1 {
		v.Sub(v, new(big.Int).Lsh(bigOne, uint(a.w)))
	}
	return v
}

func (m *TM) Ite(c, a, b *Term) (res *Term) {
	if m.lem != nil {
		defer m.rec(OIte, a.w, 0, nil, []*Term{c, a, b}, &res)
	}
	if c == m.T {
		return a
	}
	if c == m.F {
		return b
	}
	if a == b {
		return a
	}
	if c.op == OBNot {
		return m.Ite(c.args[0], b, a)
	}
	if a.w == 0 {
		if a == m.T && b == m.F {
			return c
		}
		if a == m.F && b == m.T {
			return m.BNot(c)
		}
		if a == m.T {
			return m.BOr(c, b)
		}
		if a == m.F {
			return m.BAnd(m.BNot(c), b)
		}
		if b == m.T {
			return m.BOr(m.BNot(c), a)
		}
		if b == m.F {
			return m.BAnd(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// common structure: concat with equal boundaries
	if a.op == OConcat && b.op == OConcat && len(a.args) == len(b.args) {
		same, diff := true, 0
		for i := range a.args {
			if a.args[i].w != b.args[i].w {
				same = false
				break
			}
			if a.args[i] != b.args[i] {
				diff++
			}
		}
		if same && diff < len(a.args) {
			parts := make([]*Term, len(a.args))
			for i := range a.args {
				parts[i] = m.Ite(c, a.args[i], b.args[i])
			}
			return m.Concat(parts...)
		}
	}
	return m.mk(OIte, a.w, []*Term{c, a, b}, 0, nil, "")
}

// Table lookup: vals indexed by idx (width iw, len(vals)==... may be < 2^iw), result width w.
func (m *TM) TableID(vals []uint64, w int) int {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d:", w)
	for _, v := range vals {
		fmt.Fprintf(&sb, "%x,", v)
	}
	s := sb.String()
	if id, ok := m.tabIdx[s]; ok {
		return id
	}
	id := len(m.tables)
	m.tables = append(m.tables, vals)
	m.tabWid = append(m.tabWid, w)
	m.tabIdx[s] = id
	return id
}

func (m *TM) Lookup(id int, idx *Term) *Term {
	vals, w := m.tables[id], m.tabWid[id]
	if idx.isConst() {
		i := int(idx.k)
		if idx.w > 64 {
			i = int(idx.b.Int64())
		}
		if i < len(vals) {
			return m.C(w, vals[i])
		}
		return m.C(w, 0)
	}
	// strip leading zeros of the index
	if idx.op == OConcat && idx.args[0].isZero() {
		idx = m.Extract(idx, 0, idx.w-idx.args[0].w)
	}
	return m.mk(OTable, w, []*Term{idx}, uint64(id), nil, "")
}

func rotl(v uint64, k, w int) uint64 {
	if w == 32 {
		return uint64(bits.RotateLeft32(uint32(v), k))
	}
	return 0
}
