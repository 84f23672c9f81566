package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Fn is a compiled SSA function.
type Fn struct {
	f        *ssa.Function
	id       int
	nregs    int
	blocks   []*Blk
	hasDefer bool
	recover  int
	intr     Intrinsic
	nparams  int
	once     sync.Once
	err      string
	res      *types.Tuple
	repo     bool
	concArg  int // 1+index of an argument that is forked over its values at every call
}

type instr func(fr *Frame)

type edge struct {
	to   int
	pred int // index of this edge among to's preds
}

type Blk struct {
	phis  []phi
	code  []instr
	term  func(fr *Frame) int // next edge index: 0,1 ; -1 return
	succ  [2]edge
	n     int
	pure  bool // only pure instructions
	ifc   *opnd
	ret   []opnd
	isRet bool
	isIf  bool
	isJmp bool
	reg   *region

	toExit bool
}

type phi struct {
	reg int
	in  []opnd
	sc  scalar
	t   types.Type
}

type opnd struct {
	r int // register, or -1 constant, -2 global
	c Val
	g int
}

type Frame struct {
	w         *World
	fn        *Fn
	regs      []Val
	env       []Val
	defers    []func()
	panicking *goPanic
	deferOf   *Frame // the frame whose deferred call this is
	res       Val
	blk       int
}

func (o *opnd) get(fr *Frame) Val {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	if o.r == -1 {
		return o.c
	}
	return Val{P: fr.w.global(o.g)}
}

type Prog struct {
	prog     *ssa.Program
	globals  []*ssa.Global
	globPkg  []*ssa.Package
	globIdx  map[*ssa.Global]int
	fns      map[*ssa.Function]*Fn
	mu       sync.Mutex
	rtErr    types.Type
	errStrT  types.Type
	msets    sync.Map
	repoPath string
	sizes    types.Sizes
	rtOnce   sync.Once
	rtPtr    types.Type
}

func NewProg(p *ssa.Program) *Prog {
	P := &Prog{prog: p, globIdx: map[*ssa.Global]int{}, fns: map[*ssa.Function]*Fn{}}
	for _, pkg := range p.AllPackages() {
		for _, mem := range pkg.Members {
			if g, ok := mem.(*ssa.Global); ok {
				P.globIdx[g] = len(P.globals)
				P.globals = append(P.globals, g)
				P.globPkg = append(P.globPkg, pkg)
			}
		}
	}
	P.sizes = types.SizesFor("gc", "amd64")
	if rt := p.ImportedPackage("runtime"); rt != nil {
		P.rtErr = rt.Type("errorString").Type()
	}
	return P
}

func (P *Prog) fn(f *ssa.Function) *Fn {
	P.mu.Lock()
	c, ok := P.fns[f]
	if !ok {
		c = &Fn{f: f, id: len(P.fns)}
		c.intr = lookupIntrinsic(f)
		c.concArg = concArgs[f.String()]
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), repoModule) {
			c.repo = true
		} else if f.Pkg == nil && strings.Contains(f.String(), repoModule) {
			c.repo = true
		}
		P.fns[f] = c
	}
	P.mu.Unlock()
	return c
}

func (P *Prog) compiled(c *Fn) *Fn {
	c.once.Do(func() {
		defer func() {
			if r := recover(); r != nil {
				c.err = fmt.Sprintf("cannot encode %s: %v", c.f, r)
			}
		}()
		(&compiler{P: P, fn: c, f: c.f}).compile()
	})
	return c
}

// ---------- calling ----------

// Offsets into a DER string: left symbolic (offset + length) every access behind
// them would become a choice over the whole string.
var concArgs = map[string]int{
	"encoding/asn1.parseTagAndLength": 2,
	"encoding/asn1.parseField":        3,
}

func (w *World) call(fn *Fn, args []Val, env []Val, deferOf *Frame) Val {
	if w.redirect != nil {
		if to, ok := w.redirect[fn]; ok {
			fn = to
		}
	}
	if fn.intr != nil {
		return fn.intr(w, args)
	}
	w.ex.P.compiled(fn)
	if fn.err != "" {
		panic(unsupported(fn.err))
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	if i := fn.concArg; i > 0 {
		args[i-1] = intV(w.concInt(args[i-1]))
	}
	if w.depth > 2000 {
		panic(&pathEnd{"bound", "call depth"})
	}
	if fn.repo {
		w.funcs[fn]++
	}
	w.stk = append(w.stk[:w.depth], fn)
	w.depth++
	of := w.curFn
	w.curFn = fn
	fr := &Frame{w: w, fn: fn, regs: make([]Val, fn.nregs), env: env, deferOf: deferOf}
	copy(fr.regs, args)
	var res Val
	if fn.hasDefer {
		res = w.runDefer(fr)
	} else {
		res = w.run(fr, 0, -1)
	}
	w.depth--
	w.curFn = of
	return res
}

func (w *World) runDefer(fr *Frame) (res Val) {
	depth := w.depth
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		gp, ok := r.(*goPanic)
		if !ok {
			panic(r)
		}
		w.depth = depth
		w.curFn = fr.fn
		fr.panicking = gp
		fr.runDefers()
		if fr.panicking != nil {
			panic(fr.panicking)
		}
		w.depth = depth
		w.curFn = fr.fn
		if fr.fn.recover >= 0 {
			res = w.run(fr, fr.fn.recover, -1)
		} else {
			res = zeroResults(fr.fn.f)
		}
	}()
	return w.run(fr, 0, -1)
}

func zeroResults(f *ssa.Function) Val {
	r := f.Signature.Results()
	switch r.Len() {
	case 0:
		return Val{}
	case 1:
		return zeroVal(r.At(0).Type())
	}
	return zeroVal(r)
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.safeDefer(d)
	}
}

// safeDefer runs one deferred call; a panic in it replaces the current one.
func (fr *Frame) safeDefer(d func()) {
	defer func() {
		if r := recover(); r != nil {
			gp, ok := r.(*goPanic)
			if !ok {
				panic(r)
			}
			if fr.panicking == nil && len(fr.defers) == 0 {
				fr.panicking = nil
				panic(gp)
			}
			fr.panicking = gp
			if len(fr.defers) == 0 {
				return
			}
		}
	}()
	d()
}

func (w *World) run(fr *Frame, blk int, pred int) Val {
	fn := fr.fn
	var tmp [16]Val
	for {
		b := fn.blocks[blk]
		w.steps += int64(b.n)
		if w.steps > w.maxSteps {
			panic(&pathEnd{"bound", "step limit in " + fn.f.String()})
		}
		if w.steps > w.nextTick {
			w.nextTick = w.steps + 1<<18
			w.tick()
		}
		fr.blk = blk
		if np := len(b.phis); np > 0 && pred >= 0 {
			t := tmp[:0]
			for i := range b.phis {
				t = append(t, b.phis[i].in[pred].get(fr))
			}
			for i := range b.phis {
				fr.regs[b.phis[i].reg] = t[i]
			}
		}
		for _, c := range b.code {
			c(fr)
		}
		var e int
		if b.isIf {
			c := b.ifc.get(fr)
			if c.P == nil {
				e = 1 - int(c.N)
			} else {
				t := c.P.(*Term)
				if nb, np, ret, ok := w.tryMerge(fr, blk, t); ok {
					if ret {
						return fr.res
					}
					blk, pred = nb, np
					continue
				}
				if b.toExit && w.tryExit(fr, blk, t) {
					return fr.res
				}
				if w.branch(t) {
					e = 0
				} else {
					e = 1
				}
			}
		} else {
			e = b.term(fr)
			if e < 0 {
				return fr.res
			}
		}
		pred = b.succ[e].pred
		blk = b.succ[e].to
	}
}

// ---------- compiler ----------

type compiler struct {
	P    *Prog
	fn   *Fn
	f    *ssa.Function
	regs map[ssa.Value]int
	n    int
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := c.n
	c.n++
	c.regs[v] = r
	return r
}

func (c *compiler) op(v ssa.Value) *opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return &opnd{r: -1, c: constVal(x)}
	case *ssa.Global:
		return &opnd{r: -2, g: c.P.globIdx[x]}
	case *ssa.Function:
		return &opnd{r: -1, c: Val{P: &Closure{fn: x}}}
	case *ssa.Builtin:
		return &opnd{r: -1}
	}
	return &opnd{r: c.reg(v)}
}

func constVal(x *ssa.Const) Val {
	if x.Value == nil {
		return zeroVal(x.Type())
	}
	t := x.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		// type parameter instantiation leftovers
		panic("constant of type " + x.Type().String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return bV(constant.BoolVal(x.Value))
	case b.Info()&types.IsString != 0:
		if x.Value.Kind() == constant.String {
			return strV(constant.StringVal(x.Value))
		}
		return strV(string(rune(x.Int64())))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(x.Value)
		return Val{N: math.Float64bits(f)}
	case b.Info()&types.IsInteger != 0:
		s := scalarOf(b)
		v := constant.ToInt(x.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return Val{N: s.canon(u)}
		}
		i, _ := constant.Int64Val(v)
		return Val{N: s.canon(uint64(i))}
	case b.Info()&types.IsComplex != 0:
		return Val{}
	case b.Kind() == types.UnsafePointer:
		return Val{}
	}
	panic("constant " + x.String())
}

func (c *compiler) compile() {
	f := c.f
	if f.Blocks == nil {
		panic("no body")
	}
	c.regs = map[ssa.Value]int{}
	for _, p := range f.Params {
		c.reg(p)
	}
	for _, p := range f.FreeVars {
		c.reg(p)
	}
	c.fn.nparams = len(f.Params)
	c.fn.recover = -1
	if f.Recover != nil {
		c.fn.recover = f.Recover.Index
	}
	c.fn.res = f.Signature.Results()
	for range f.Blocks {
		c.fn.blocks = append(c.fn.blocks, &Blk{})
	}
	for i, b := range f.Blocks {
		c.block(c.fn.blocks[i], b)
	}
	c.fn.nregs = c.n
	computeRegions(c.fn, f)
}

func predIndex(from, to *ssa.BasicBlock, nth int) int {
	k := 0
	for i, p := range to.Preds {
		if p == from {
			if k == nth {
				return i
			}
			k++
		}
	}
	return -1
}

func (c *compiler) block(b *Blk, sb *ssa.BasicBlock) {
	b.n = len(sb.Instrs)
	b.pure = true
	for i, s := range sb.Succs {
		nth := 0
		if i == 1 && sb.Succs[0] == s {
			nth = 1
		}
		b.succ[i] = edge{s.Index, predIndex(sb, s, nth)}
	}
	for _, in := range sb.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			p := phi{reg: c.reg(x), sc: scalarOf(x.Type()), t: x.Type()}
			for _, e := range x.Edges {
				p.in = append(p.in, *c.op(e))
			}
			b.phis = append(b.phis, p)
		case *ssa.DebugRef:
		case *ssa.If:
			b.isIf = true
			b.ifc = c.op(x.Cond)
		case *ssa.Jump:
			b.isJmp = true
			b.term = func(fr *Frame) int { return 0 }
		case *ssa.Return:
			b.isRet = true
			for _, r := range x.Results {
				b.ret = append(b.ret, *c.op(r))
			}
			rs := b.ret
			switch len(rs) {
			case 0:
				b.term = func(fr *Frame) int { fr.res = Val{}; return -1 }
			case 1:
				o := rs[0]
				b.term = func(fr *Frame) int { fr.res = o.get(fr); return -1 }
			default:
				b.term = func(fr *Frame) int {
					t := &Tuple{make([]Val, len(rs))}
					for i := range rs {
						t.e[i] = rs[i].get(fr)
					}
					fr.res = Val{P: t}
					return -1
				}
			}
		case *ssa.Panic:
			o := c.op(x.X)
			b.pure = false
			b.term = func(fr *Frame) int {
				if fr.w.spec > 0 {
					panic(specAbort{})
				}
				panic(&goPanic{o.get(fr)})
			}
		default:
			ins, pure := c.instr(in)
			if !pure {
				b.pure = false
			}
			if ins != nil {
				b.code = append(b.code, ins)
			}
		}
	}
}

func (c *compiler) instr(in ssa.Instruction) (instr, bool) {
	switch x := in.(type) {
	case *ssa.Alloc:
		r := c.reg(x)
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if needsAgg(t) {
			return func(fr *Frame) {
				p := new(Val)
				*p = zeroVal(t)
				fr.regs[r] = Val{P: p}
			}, false
		}
		return func(fr *Frame) { fr.regs[r] = Val{P: new(Val)} }, false
	case *ssa.BinOp:
		return c.binop(x), true
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		return func(fr *Frame) {
			if fr.w.spec > 0 {
				panic(specAbort{})
			}
			fr.w.storeTo(a.get(fr), v.get(fr))
		}, false
	case *ssa.FieldAddr:
		r, o, f := c.reg(x), c.op(x.X), x.Field
		return func(fr *Frame) {
			p := o.get(fr)
			v, ok := p.P.(*Val)
			if !ok {
				if p.P == nil {
					fr.w.goPanicStr("invalid memory address or nil pointer dereference")
				}
				panic(unsupported(fmt.Sprintf("field of %T in %s", p.P, fr.fn.f)))
			}
			a, ok := v.P.(*Agg)
			if !ok {
				panic(unsupported(fmt.Sprintf("field of opaque %T in %s", v.P, fr.fn.f)))
			}
			fr.regs[r] = Val{P: &a.e[f]}
		}, true
	case *ssa.Field:
		r, o, f := c.reg(x), c.op(x.X), x.Field
		return func(fr *Frame) {
			a, ok := o.get(fr).P.(*Agg)
			if !ok {
				panic(unsupported("field of opaque value in " + fr.fn.f.String()))
			}
			fr.regs[r] = a.e[f]
		}, true
	case *ssa.IndexAddr:
		return c.indexAddr(x), true
	case *ssa.Index:
		return c.index(x), true
	case *ssa.Lookup:
		return c.lookup(x), false
	case *ssa.Slice:
		return c.slice(x), true
	case *ssa.Convert:
		return c.convert(x)
	case *ssa.MultiConvert:
		panic("multiconvert")
	case *ssa.ChangeType:
		r, o := c.reg(x), c.op(x.X)
		return func(fr *Frame) { fr.regs[r] = o.get(fr) }, true
	case *ssa.ChangeInterface:
		r, o := c.reg(x), c.op(x.X)
		return func(fr *Frame) { fr.regs[r] = o.get(fr) }, true
	case *ssa.MakeInterface:
		r, o, t := c.reg(x), c.op(x.X), x.X.Type()
		return func(fr *Frame) { fr.regs[r] = Val{P: &Iface{t, o.get(fr)}} }, true
	case *ssa.Extract:
		r, o, i := c.reg(x), c.op(x.Tuple), x.Index
		return func(fr *Frame) { fr.regs[r] = o.get(fr).P.(*Tuple).e[i] }, true
	case *ssa.TypeAssert:
		return c.typeAssert(x), false
	case *ssa.MakeSlice:
		r, l, cp := c.reg(x), c.op(x.Len), c.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		ag := needsAgg(et)
		return func(fr *Frame) {
			w := fr.w
			if w.spec > 0 {
				panic(specAbort{})
			}
			n := w.lenArg(l.get(fr), scalarOf(x.Len.Type()))
			m := w.lenArg(cp.get(fr), scalarOf(x.Cap.Type()))
			if n < 0 || n > 1<<40 {
				w.goPanicStr("makeslice: len out of range")
			}
			if m < n {
				w.goPanicStr("makeslice: cap out of range")
			}
			if m > 1<<24 {
				panic(&pathEnd{"bound", fmt.Sprintf("allocation of %d elements", m)})
			}
			e := make([]Val, n, m)
			if ag {
				full := e[:m]
				for i := range full {
					full[i] = zeroVal(et)
				}
			}
			fr.regs[r] = Val{P: &Slice{e}}
		}, false
	case *ssa.MakeMap:
		r := c.reg(x)
		return func(fr *Frame) { fr.regs[r] = Val{P: newMap()} }, false
	case *ssa.MapUpdate:
		mp, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *Frame) {
			if fr.w.spec > 0 {
				panic(specAbort{})
			}
			mv, ok := mp.get(fr).P.(*MapV)
			if !ok {
				fr.w.goPanicStr("assignment to entry in nil map")
			}
			fr.w.mapSet(mv, kt, copyVal(k.get(fr)), copyVal(v.get(fr)))
		}, false
	case *ssa.MakeClosure:
		r := c.reg(x)
		fn := x.Fn.(*ssa.Function)
		bs := make([]*opnd, len(x.Bindings))
		for i, b := range x.Bindings {
			bs[i] = c.op(b)
		}
		return func(fr *Frame) {
			env := make([]Val, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[r] = Val{P: &Closure{fn: fn, env: env}}
		}, false
	case *ssa.Call:
		r := c.reg(x)
		do := c.callCommon(&x.Call, x.Type())
		if lengthBlind(x) {
			o := c.op(x.Call.Args[0])
			return func(fr *Frame) {
				if fr.w.spec > 0 {
					panic(specAbort{})
				}
				if v := o.get(fr); v.P != nil {
					if b := fr.w.bigGet(v); b.c == nil && b.lo.Sign() >= 0 {
						fr.regs[r] = Val{P: &Slice{fr.w.magBytes(b, (b.hi.BitLen()+7)/8)}}
						return
					}
				}
				fr.regs[r] = do(fr)
			}, false
		}
		pure := false
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" || b.Name() == "max") {
			pure = true
		}
		if sc := x.Call.StaticCallee(); sc != nil && pureIntrinsic(sc) {
			pure = true
		}
		if pure {
			return func(fr *Frame) { fr.regs[r] = do(fr) }, true
		}
		return func(fr *Frame) {
			if fr.w.spec > 0 {
				panic(specAbort{})
			}
			fr.regs[r] = do(fr)
		}, false
	case *ssa.Defer:
		c.fn.hasDefer = true
		pre := c.deferCall(&x.Call)
		return func(fr *Frame) {
			d := pre(fr)
			fr.defers = append(fr.defers, d)
		}, false
	case *ssa.RunDefers:
		return func(fr *Frame) { fr.runDefersNormal() }, false
	case *ssa.Range:
		r, o := c.reg(x), c.op(x.X)
		isStr := isStringT(x.X.Type())
		return func(fr *Frame) {
			v := o.get(fr)
			it := &iter{str: isStr, v: v}
			if !isStr {
				if mv, ok := v.P.(*MapV); ok {
					it.m = mv
					for i := range mv.keys {
						if !mv.del[i] {
							it.order = append(it.order, i)
						}
					}
				}
			}
			fr.regs[r] = Val{P: it}
		}, false
	case *ssa.Next:
		r, o := c.reg(x), c.op(x.Iter)
		return func(fr *Frame) { fr.regs[r] = fr.w.next(o.get(fr).P.(*iter)) }, false
	case *ssa.SliceToArrayPointer:
		r, o := c.reg(x), c.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *Frame) {
			e := sliceElems(o.get(fr))
			if len(e) < n {
				fr.w.goPanicStr("cannot convert slice to array pointer: length mismatch")
			}
			fr.regs[r] = Val{P: &Val{P: &Agg{e[:n:n]}}}
		}, false
	case *ssa.Go:
		return func(fr *Frame) { panic(unsupported("go statement in " + fr.fn.f.String())) }, false
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		if v, ok := in.(ssa.Value); ok {
			c.reg(v)
		}
		return func(fr *Frame) { panic(unsupported("channel operation in " + fr.fn.f.String())) }, false
	}
	panic(fmt.Sprintf("instruction %T", in))
}

func (fr *Frame) runDefersNormal() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d()
	}
}

// lenArg concretises a length with bounds.
func (w *World) lenArg(v Val, s scalar) int {
	if v.P == nil {
		return int(int64(v.N))
	}
	t := v.P.(*Term)
	if s.signed {
		if w.branch(w.m.Slt(t, w.m.C(t.w, 0))) {
			return -1
		}
	}
	if t.w > 24 && w.branch(w.m.Ult(w.m.C(t.w, 1<<20), t)) {
		panic(&pathEnd{"bound", "symbolic allocation size above 2^20"})
	}
	return int(w.concT(t).Int64())
}

func (w *World) storeTo(a Val, v Val) {
	switch p := a.P.(type) {
	case *Val:
		w.store(p, v)
	case *SymPtr:
		for i := range p.e {
			c := w.m.Eq(p.idx, w.m.C(p.idx.w, uint64(i)))
			old := p.e[i]
			if old == v {
				continue
			}
			if p.s.w == 0 {
				w.store(&p.e[i], fromBool(w.m.Ite(c, w.bterm(v), w.bterm(old))))
			} else {
				w.store(&p.e[i], w.fromTerm(w.m.Ite(c, w.term(v, p.s.w), w.term(old, p.s.w)), p.s))
			}
		}
	case nil:
		w.goPanicStr("invalid memory address or nil pointer dereference")
	default:
		panic(unsupported(fmt.Sprintf("store through %T", a.P)))
	}
}

func (c *compiler) indexAddr(x *ssa.IndexAddr) instr {
	r, o, ix := c.reg(x), c.op(x.X), c.op(x.Index)
	isc := scalarOf(x.Index.Type())
	var et types.Type
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Pointer:
		et = u.Elem().Underlying().(*types.Array).Elem()
	}
	esc := scalarOf(et)
	return func(fr *Frame) {
		w := fr.w
		v := o.get(fr)
		var e []Val
		switch p := v.P.(type) {
		case *Slice:
			e = p.e
		case *Val:
			a, ok := p.P.(*Agg)
			if !ok {
				panic(unsupported("index of opaque value in " + fr.fn.f.String()))
			}
			e = a.e
		case nil:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				w.goPanicStr("invalid memory address or nil pointer dereference")
			}
		default:
			panic(unsupported(fmt.Sprintf("index of %T in %s", v.P, fr.fn.f)))
		}
		i := ix.get(fr)
		if i.P == nil {
			if i.N >= uint64(len(e)) || int64(i.N) < 0 {
				w.goPanicStr(fmt.Sprintf("index out of range [%d] with length %d", int64(i.N), len(e)))
			}
			fr.regs[r] = Val{P: &e[i.N]}
			return
		}
		t := w.idxBounds(i.P.(*Term), isc, len(e))
		if esc.ok && len(e) <= 4096 {
			fr.regs[r] = Val{P: &SymPtr{e, t, esc}}
			return
		}
		k := int(w.concT(t).Int64())
		fr.regs[r] = Val{P: &e[k]}
	}
}

// idxBounds forks on the bounds check and returns the index as an unsigned term.
func (w *World) idxBounds(t *Term, s scalar, n int) *Term {
	if n == 0 {
		w.goPanicStr("index out of range")
	}
	var in *Term
	if t.w < 63 && uint64(n) > mask(t.w) && !s.signed {
		in = w.m.T
	} else {
		x := t
		if t.w < 64 {
			if s.signed {
				x = w.m.SExt(t, 64)
			} else {
				x = w.m.ZExt(t, 64)
			}
			t = x
		}
		in = w.m.Ult(x, w.m.C(x.w, uint64(n)))
	}
	if !w.branch(in) {
		w.goPanicStr(fmt.Sprintf("index out of range with length %d", n))
	}
	return t
}

func (w *World) loadSym(p *SymPtr, s scalar) Val {
	e := p.e
	// all concrete: table
	conc := true
	for i := range e {
		if e[i].P != nil {
			conc = false
			break
		}
	}
	wd := s.w
	if conc && wd > 0 {
		// index width: minimal
		vals := make([]uint64, len(e))
		for i := range e {
			vals[i] = e[i].N & mask(wd)
		}
		idx := p.idx
		nb := 1
		for (1 << uint(nb)) < len(e) {
			nb++
		}
		if idx.w > nb {
			idx = w.m.Extract(idx, 0, nb)
		}
		same := true
		for i := range vals {
			if vals[i] != vals[0] {
				same = false
			}
		}
		if same {
			return e[0]
		}
		return w.fromTerm(w.m.Lookup(w.m.TableID(vals, wd), idx), s)
	}
	var r *Term
	for i := len(e) - 1; i >= 0; i-- {
		var x *Term
		if wd == 0 {
			x = w.bterm(e[i])
		} else {
			x = w.term(e[i], wd)
		}
		if r == nil {
			r = x
		} else {
			r = w.m.Ite(w.m.Eq(p.idx, w.m.C(p.idx.w, uint64(i))), x, r)
		}
	}
	return w.fromTerm(r, s)
}

func (c *compiler) index(x *ssa.Index) instr {
	r, o, ix := c.reg(x), c.op(x.X), c.op(x.Index)
	isc := scalarOf(x.Index.Type())
	esc := scalarOf(x.Type())
	str := isStringT(x.X.Type())
	return func(fr *Frame) {
		w := fr.w
		v := o.get(fr)
		i := ix.get(fr)
		if str {
			if s, ok := v.P.(string); ok && i.P == nil {
				if i.N >= uint64(len(s)) || int64(i.N) < 0 {
					w.goPanicStr(fmt.Sprintf("index out of range [%d] with length %d", int64(i.N), len(s)))
				}
				fr.regs[r] = Val{N: uint64(s[i.N])}
				return
			}
		}
		var e []Val
		if str {
			e = strBytes(v)
		} else {
			e = v.P.(*Agg).e
		}
		if i.P == nil {
			if i.N >= uint64(len(e)) || int64(i.N) < 0 {
				w.goPanicStr(fmt.Sprintf("index out of range [%d] with length %d", int64(i.N), len(e)))
			}
			fr.regs[r] = e[i.N]
			return
		}
		t := w.idxBounds(i.P.(*Term), isc, len(e))
		if esc.ok {
			fr.regs[r] = w.loadSym(&SymPtr{e, t, esc}, esc)
			return
		}
		fr.regs[r] = e[int(w.concT(t).Int64())]
	}
}

func (c *compiler) lookup(x *ssa.Lookup) instr {
	r, o, ix := c.reg(x), c.op(x.X), c.op(x.Index)
	if isStringT(x.X.Type()) {
		isc := scalarOf(x.Index.Type())
		return func(fr *Frame) {
			w := fr.w
			e := strBytes(o.get(fr))
			i := ix.get(fr)
			if i.P == nil {
				if i.N >= uint64(len(e)) || int64(i.N) < 0 {
					w.goPanicStr("index out of range")
				}
				fr.regs[r] = e[i.N]
				return
			}
			t := w.idxBounds(i.P.(*Term), isc, len(e))
			fr.regs[r] = w.loadSym(&SymPtr{e: e, idx: t}, scalar{8, false, true, false})
		}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	return func(fr *Frame) {
		w := fr.w
		mv, _ := o.get(fr).P.(*MapV)
		i := w.mapFind(mv, mt.Key(), ix.get(fr))
		var v Val
		if i >= 0 {
			v = copyVal(mv.vals[i])
		} else {
			v = zeroVal(mt.Elem())
		}
		if x.CommaOk {
			v = tupV(v, bV(i >= 0))
		}
		fr.regs[r] = v
	}
}

func (c *compiler) slice(x *ssa.Slice) instr {
	r, o := c.reg(x), c.op(x.X)
	var lo, hi, mx *opnd
	if x.Low != nil {
		lo = c.op(x.Low)
	}
	if x.High != nil {
		hi = c.op(x.High)
	}
	if x.Max != nil {
		mx = c.op(x.Max)
	}
	isStr := isStringT(x.X.Type())
	return func(fr *Frame) {
		w := fr.w
		v := o.get(fr)
		var e []Val
		isNil := false
		var gs string
		conc := false
		n, cp := 0, 0
		switch p := v.P.(type) {
		case *Slice:
			e = p.e
			n, cp = len(e), cap(e)
		case *Val:
			a, ok := p.P.(*Agg)
			if !ok {
				panic(unsupported("slice of opaque value"))
			}
			e = a.e[:len(a.e):len(a.e)]
			n, cp = len(e), len(e)
		case nil:
			isNil = true
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				w.goPanicStr("invalid memory address or nil pointer dereference")
			}
		case string:
			gs = p
			conc = true
			n, cp = len(p), len(p)
		case *Str:
			e = p.b
			n, cp = len(e), len(e)
		default:
			panic(unsupported(fmt.Sprintf("slice of %T", v.P)))
		}
		l, h, m := 0, n, cp
		if mx != nil {
			m = w.boundArg(mx.get(fr), cp)
			if m < 0 || m > cp {
				w.goPanicStr(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, cp))
			}
		}
		if hi != nil {
			h = w.boundArg(hi.get(fr), m)
			if h < 0 || h > m {
				w.goPanicStr(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, m))
			}
		}
		if lo != nil {
			l = w.boundArg(lo.get(fr), h)
			if l < 0 || l > h {
				w.goPanicStr(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
		}
		switch {
		case isStr && conc:
			fr.regs[r] = strV(gs[l:h])
		case isStr:
			if isNil {
				fr.regs[r] = Val{}
			} else {
				fr.regs[r] = mkStr(e[l:h])
			}
		case isNil:
			fr.regs[r] = Val{}
		default:
			fr.regs[r] = Val{P: &Slice{e[l:h:m]}}
		}
	}
}

// boundArg concretises a slice bound; values outside [0,max] are merged into one failing path.
func (w *World) boundArg(v Val, max int) int {
	if v.P == nil {
		return int(int64(v.N))
	}
	t := v.P.(*Term)
	x := t
	if t.w < 64 {
		x = w.m.ZExt(t, 64)
	}
	if !w.branch(w.m.Ule(x, w.m.C(64, uint64(max)))) {
		return -1
	}
	return int(w.concT(t).Int64())
}

func fl(v Val, b *types.Basic) float64 {
	if v.P != nil {
		panic(unsupported("symbolic float"))
	}
	return math.Float64frombits(v.N)
}

func (c *compiler) unop(x *ssa.UnOp) (instr, bool) {
	r, o := c.reg(x), c.op(x.X)
	s := scalarOf(x.Type())
	switch x.Op {
	case token.MUL:
		return func(fr *Frame) {
			v := o.get(fr)
			switch p := v.P.(type) {
			case *Val:
				if a, ok := p.P.(*Agg); ok {
					_ = a
					fr.regs[r] = copyVal(*p)
				} else {
					fr.regs[r] = *p
				}
			case *SymPtr:
				fr.regs[r] = fr.w.loadSym(p, s)
			case nil:
				fr.w.goPanicStr("invalid memory address or nil pointer dereference")
			default:
				panic(unsupported(fmt.Sprintf("load through %T in %s", v.P, fr.fn.f)))
			}
		}, true
	case token.NOT:
		return func(fr *Frame) {
			v := o.get(fr)
			if v.P == nil {
				fr.regs[r] = Val{N: v.N ^ 1}
			} else {
				fr.regs[r] = fromBool(fr.w.m.BNot(v.P.(*Term)))
			}
		}, true
	case token.SUB:
		if s.float {
			return func(fr *Frame) { fr.regs[r] = Val{N: math.Float64bits(-fl(o.get(fr), nil))} }, true
		}
		return func(fr *Frame) {
			v := o.get(fr)
			if v.P == nil {
				fr.regs[r] = Val{N: s.canon(-v.N)}
			} else {
				fr.regs[r] = fr.w.fromTerm(fr.w.m.Neg(v.P.(*Term)), s)
			}
		}, true
	case token.XOR:
		return func(fr *Frame) {
			v := o.get(fr)
			if v.P == nil {
				fr.regs[r] = Val{N: s.canon(^v.N)}
			} else {
				fr.regs[r] = fr.w.fromTerm(fr.w.m.Not(v.P.(*Term)), s)
			}
		}, true
	case token.ARROW:
		return func(fr *Frame) { panic(unsupported("channel receive")) }, false
	}
	panic("unop " + x.Op.String())
}

func (c *compiler) binop(x *ssa.BinOp) instr {
	r, a, b := c.reg(x), c.op(x.X), c.op(x.Y)
	t := x.X.Type()
	s := scalarOf(t)
	op := x.Op
	bt, _ := t.Underlying().(*types.Basic)
	switch op {
	case token.EQL, token.NEQ:
		neq := op == token.NEQ
		if s.ok {
			return func(fr *Frame) {
				u, v := a.get(fr), b.get(fr)
				if u.P == nil && v.P == nil {
					fr.regs[r] = bV((u.N == v.N) != neq)
					return
				}
				e := fr.w.m.Eq(fr.w.term(u, s.w), fr.w.term(v, s.w))
				if neq {
					e = fr.w.m.BNot(e)
				}
				fr.regs[r] = fromBool(e)
			}
		}
		return func(fr *Frame) {
			e := fr.w.eqVal(t, a.get(fr), b.get(fr))
			if neq {
				e = fr.w.m.BNot(e)
			}
			fr.regs[r] = fromBool(e)
		}
	case token.SHL, token.SHR:
		ys := scalarOf(x.Y.Type())
		return func(fr *Frame) {
			u, v := a.get(fr), b.get(fr)
			w := fr.w
			if v.P == nil && ys.signed && int64(v.N) < 0 {
				w.goPanicStr("negative shift amount")
			}
			if u.P == nil && v.P == nil {
				var z uint64
				n := v.N
				if op == token.SHL {
					if n < 64 {
						z = u.N << n
					}
				} else if s.signed {
					if n > 63 {
						n = 63
					}
					z = uint64(int64(u.N) >> n)
				} else if n < 64 {
					z = u.N >> n
				}
				fr.regs[r] = Val{N: s.canon(z)}
				return
			}
			// bring the count to the width of u, saturating
			var cnt *Term
			if v.P == nil {
				n := v.N
				if n > uint64(s.w) {
					n = uint64(s.w)
				}
				cnt = nil
				ut := w.term(u, s.w)
				var z *Term
				switch {
				case op == token.SHL:
					z = w.m.shlC(ut, int(n))
				case s.signed:
					z = w.m.ashrC(ut, int(n))
				default:
					z = w.m.lshrC(ut, int(n))
				}
				fr.regs[r] = w.fromTerm(z, s)
				return
			}
			vt := v.P.(*Term)
			if ys.signed {
				if w.branch(w.m.Slt(vt, w.m.C(vt.w, 0))) {
					w.goPanicStr("negative shift amount")
				}
			}
			if vt.w > s.w {
				big := w.m.Ult(w.m.C(vt.w, uint64(s.w)-1), vt)
				cnt = w.m.Ite(big, w.m.C(s.w, uint64(s.w)&mask(s.w)), w.m.Extract(vt, 0, s.w))
				if s.w == 0 {
					panic("shift of bool")
				}
				if uint64(s.w) > mask(s.w) {
					panic(unsupported("narrow symbolic shift"))
				}
			} else {
				cnt = w.m.ZExt(vt, s.w)
			}
			o := OShl
			if op == token.SHR {
				o = OLShr
				if s.signed {
					o = OAShr
				}
			}
			fr.regs[r] = w.fromTerm(w.m.Shift(o, w.term(u, s.w), cnt), s)
		}
	}
	if bt != nil && bt.Info()&types.IsString != 0 {
		return func(fr *Frame) {
			u, v := a.get(fr), b.get(fr)
			w := fr.w
			switch op {
			case token.ADD:
				x, ok1 := goStr(u)
				y, ok2 := goStr(v)
				if ok1 && ok2 {
					fr.regs[r] = strV(x + y)
					return
				}
				ub, vb := strBytes(u), strBytes(v)
				z := make([]Val, 0, len(ub)+len(vb))
				z = append(append(z, ub...), vb...)
				fr.regs[r] = mkStr(z)
			case token.LSS:
				fr.regs[r] = fromBool(w.bytesLess(strBytes(u), strBytes(v)))
			case token.GTR:
				fr.regs[r] = fromBool(w.bytesLess(strBytes(v), strBytes(u)))
			case token.LEQ:
				fr.regs[r] = fromBool(w.m.BNot(w.bytesLess(strBytes(v), strBytes(u))))
			case token.GEQ:
				fr.regs[r] = fromBool(w.m.BNot(w.bytesLess(strBytes(u), strBytes(v))))
			}
		}
	}
	if s.float {
		return func(fr *Frame) {
			u, v := fl(a.get(fr), bt), fl(b.get(fr), bt)
			f32 := s.w == 32
			var z float64
			switch op {
			case token.ADD:
				z = u + v
			case token.SUB:
				z = u - v
			case token.MUL:
				z = u * v
			case token.QUO:
				z = u / v
			case token.LSS:
				fr.regs[r] = bV(u < v)
				return
			case token.LEQ:
				fr.regs[r] = bV(u <= v)
				return
			case token.GTR:
				fr.regs[r] = bV(u > v)
				return
			case token.GEQ:
				fr.regs[r] = bV(u >= v)
				return
			}
			if f32 {
				z = float64(float32(z))
			}
			fr.regs[r] = Val{N: math.Float64bits(z)}
		}
	}
	if !s.ok {
		panic("binop " + op.String() + " on " + t.String())
	}
	return func(fr *Frame) {
		u, v := a.get(fr), b.get(fr)
		if u.P == nil && v.P == nil {
			fr.regs[r] = concBin(fr.w, op, s, u.N, v.N)
			return
		}
		fr.regs[r] = fr.w.symBin(op, s, u, v)
	}
}

func concBin(w *World, op token.Token, s scalar, x, y uint64) Val {
	switch op {
	case token.ADD:
		return Val{N: s.canon(x + y)}
	case token.SUB:
		return Val{N: s.canon(x - y)}
	case token.MUL:
		return Val{N: s.canon(x * y)}
	case token.AND:
		return Val{N: x & y}
	case token.OR:
		return Val{N: x | y}
	case token.XOR:
		return Val{N: s.canon(x ^ y)}
	case token.AND_NOT:
		return Val{N: s.canon(x &^ y)}
	case token.QUO, token.REM:
		if y == 0 {
			w.goPanicStr("integer divide by zero")
		}
		if s.signed {
			a, b := int64(x), int64(y)
			if b == -1 {
				if op == token.QUO {
					return Val{N: s.canon(uint64(-a))}
				}
				return Val{}
			}
			if op == token.QUO {
				return Val{N: s.canon(uint64(a / b))}
			}
			return Val{N: s.canon(uint64(a % b))}
		}
		if op == token.QUO {
			return Val{N: x / y}
		}
		return Val{N: x % y}
	}
	var lt, eq bool
	eq = x == y
	if s.signed {
		lt = int64(x) < int64(y)
	} else {
		lt = x < y
	}
	switch op {
	case token.LSS:
		return bV(lt)
	case token.LEQ:
		return bV(lt || eq)
	case token.GTR:
		return bV(!lt && !eq)
	case token.GEQ:
		return bV(!lt)
	}
	panic("concBin " + op.String())
}

func (w *World) symBin(op token.Token, s scalar, u, v Val) Val {
	m := w.m
	if s.w == 0 { // bool ops do not occur except and/or via control flow
		a, b := w.bterm(u), w.bterm(v)
		switch op {
		case token.AND:
			return fromBool(m.BAnd(a, b))
		case token.OR:
			return fromBool(m.BOr(a, b))
		}
		panic(unsupported("bool op " + op.String()))
	}
	a, b := w.term(u, s.w), w.term(v, s.w)
	var z *Term
	switch op {
	case token.ADD:
		z = m.Add(a, b)
	case token.SUB:
		z = m.Sub(a, b)
	case token.MUL:
		z = m.Mul(a, b)
	case token.AND:
		z = m.And(a, b)
	case token.OR:
		z = m.Or(a, b)
	case token.XOR:
		z = m.Xor(a, b)
	case token.AND_NOT:
		z = m.And(a, m.Not(b))
	case token.QUO, token.REM:
		zero := m.Eq(b, m.C(s.w, 0))
		if zero == m.T {
			w.goPanicStr("integer divide by zero")
		}
		if zero != m.F && w.branch(zero) {
			w.goPanicStr("integer divide by zero")
		}
		o := OUDiv
		switch {
		case op == token.QUO && s.signed:
			o = OSDiv
		case op == token.REM && s.signed:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		z = m.DivRem(o, a, b)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
		}
		strict := op == token.LSS || op == token.GTR
		var c *Term
		switch {
		case s.signed && strict:
			c = m.Slt(a, b)
		case s.signed:
			c = m.Sle(a, b)
		case strict:
			c = m.Ult(a, b)
		default:
			c = m.Ule(a, b)
		}
		return fromBool(c)
	default:
		panic("symBin " + op.String())
	}
	return w.fromTerm(z, s)
}

func (c *compiler) convert(x *ssa.Convert) (instr, bool) {
	r, o := c.reg(x), c.op(x.X)
	ft, tt := x.X.Type().Underlying(), x.Type().Underlying()
	fs, ts := scalarOf(ft), scalarOf(tt)
	switch {
	case fs.ok && ts.ok:
		return func(fr *Frame) {
			v := o.get(fr)
			if v.P == nil {
				fr.regs[r] = Val{N: ts.canon(v.N)}
				return
			}
			t, ok := v.P.(*Term)
			if !ok {
				panic(unsupported("conversion of opaque value"))
			}
			if ts.w <= t.w {
				t = fr.w.m.Extract(t, 0, ts.w)
			} else if fs.signed {
				t = fr.w.m.SExt(t, ts.w)
			} else {
				t = fr.w.m.ZExt(t, ts.w)
			}
			fr.regs[r] = fr.w.fromTerm(t, ts)
		}, true
	case fs.ok && ts.float:
		return func(fr *Frame) {
			v := o.get(fr)
			n := fr.w.conc(v, fs.w)
			var f float64
			if fs.signed {
				f = float64(int64(fs.canon(n)))
			} else {
				f = float64(n)
			}
			if ts.w == 32 {
				f = float64(float32(f))
			}
			fr.regs[r] = Val{N: math.Float64bits(f)}
		}, false
	case fs.float && ts.ok:
		return func(fr *Frame) {
			f := fl(o.get(fr), nil)
			if ts.signed {
				fr.regs[r] = Val{N: ts.canon(uint64(int64(f)))}
			} else {
				fr.regs[r] = Val{N: ts.canon(uint64(f))}
			}
		}, true
	case fs.float && ts.float:
		return func(fr *Frame) {
			f := fl(o.get(fr), nil)
			if ts.w == 32 {
				f = float64(float32(f))
			}
			fr.regs[r] = Val{N: math.Float64bits(f)}
		}, true
	}
	fb, fIsB := ft.(*types.Basic)
	tb, tIsB := tt.(*types.Basic)
	if tIsB && tb.Info()&types.IsString != 0 {
		if sl, ok := ft.(*types.Slice); ok {
			es := scalarOf(sl.Elem())
			if es.w == 8 {
				return func(fr *Frame) { fr.regs[r] = mkStr(sliceElems(o.get(fr))) }, false
			}
			return func(fr *Frame) { // []rune
				rs := make([]rune, 0)
				for _, v := range sliceElems(o.get(fr)) {
					rs = append(rs, rune(int32(fr.w.conc(v, 32))))
				}
				fr.regs[r] = strV(string(rs))
			}, false
		}
		if fs.ok { // string(rune)
			return func(fr *Frame) {
				v := o.get(fr)
				if v.P != nil {
					t := v.P.(*Term)
					if fr.w.branch(fr.w.m.Ult(t, fr.w.m.C(t.w, 0x80))) {
						fr.regs[r] = mkStr([]Val{fr.w.fromTerm(fr.w.m.Extract(t, 0, 8), scalar{8, false, true, false})})
						return
					}
					fr.w.note("string(rune) of a value of 0x80 or more taken as one replacement character")
					fr.regs[r] = strV("\ufffd")
					return
				}
				n := fs.canon(fr.w.conc(v, fs.w))
				if int64(n) < 0 || n > 0x10ffff {
					n = 0xfffd
				}
				fr.regs[r] = strV(string(rune(n)))
			}, false
		}
		if fIsB && fb.Info()&types.IsString != 0 {
			return func(fr *Frame) { fr.regs[r] = o.get(fr) }, true
		}
	}
	if sl, ok := tt.(*types.Slice); ok && fIsB && fb.Info()&types.IsString != 0 {
		if scalarOf(sl.Elem()).w == 8 {
			return func(fr *Frame) {
				b := strBytes(o.get(fr))
				c := make([]Val, len(b))
				copy(c, b)
				fr.regs[r] = Val{P: &Slice{c}}
			}, false
		}
		return func(fr *Frame) {
			s := fr.w.mustStr(o.get(fr))
			var e []Val
			for _, x := range s {
				e = append(e, Val{N: uint64(int64(x))})
			}
			fr.regs[r] = mkSlice(e)
		}, false
	}
	if tIsB && tb.Kind() == types.UnsafePointer || fIsB && fb.Kind() == types.UnsafePointer {
		if ts.ok { // unsafe.Pointer -> uintptr
			return func(fr *Frame) {
				v := o.get(fr)
				if p, ok := v.P.(*Val); ok {
					fr.regs[r] = Val{N: uint64(uintptr(unsafe.Pointer(p)))}
					return
				}
				if v.P == nil {
					fr.regs[r] = Val{}
					return
				}
				panic(unsupported("pointer to integer conversion"))
			}, true
		}
		if fs.ok {
			return func(fr *Frame) { panic(unsupported("integer to pointer conversion in " + fr.fn.f.String())) }, false
		}
		return func(fr *Frame) { fr.regs[r] = o.get(fr) }, true
	}
	if _, ok := tt.(*types.Pointer); ok {
		return func(fr *Frame) { fr.regs[r] = o.get(fr) }, true
	}
	panic("convert " + x.X.Type().String() + " to " + x.Type().String())
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) instr {
	r, o := c.reg(x), c.op(x.X)
	at := x.AssertedType
	it, isI := at.Underlying().(*types.Interface)
	zt := at
	return func(fr *Frame) {
		w := fr.w
		v := o.get(fr)
		ok := false
		var res Val
		if i, is := v.P.(*Iface); is && i != nil {
			if isI {
				if w.ex.P.implements(i.t, it) {
					ok, res = true, v
				}
			} else if types.Identical(i.t, at) {
				ok, res = true, i.v
			}
		}
		if !ok {
			if !x.CommaOk {
				if w.spec > 0 {
					panic(specAbort{})
				}
				panic(&goPanic{Val{P: &Iface{w.ex.P.rtErr, strV("interface conversion: not " + at.String())}}})
			}
			res = zeroVal(zt)
		}
		if x.CommaOk {
			fr.regs[r] = tupV(res, bV(ok))
		} else {
			fr.regs[r] = res
		}
	}
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (P *Prog) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if v, ok := P.msets.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, i)
	P.msets.Store(k, r)
	return r
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

func (P *Prog) method(t types.Type, m *types.Func) *Fn {
	k := methKey{t, m.Name(), nil}
	if !m.Exported() {
		k.pkg = m.Pkg()
	}
	if v, ok := P.msets.Load(k); ok {
		return v.(*Fn)
	}
	P.mu.Lock()
	f := P.prog.LookupMethod(t, m.Pkg(), m.Name())
	P.mu.Unlock()
	if f == nil {
		panic(unsupported("no method " + m.Name() + " on " + t.String()))
	}
	fn := P.fn(f)
	P.msets.Store(k, fn)
	return fn
}

type iter struct {
	str   bool
	v     Val
	m     *MapV
	order []int
	i     int
}

func (w *World) next(it *iter) Val {
	if !it.str {
		for it.i < len(it.order) {
			k := it.order[it.i]
			it.i++
			if it.m.del[k] {
				continue
			}
			return tupV(bV(true), copyVal(it.m.keys[k]), copyVal(it.m.vals[k]))
		}
		return tupV(bV(false), Val{}, Val{})
	}
	n := strLen(it.v)
	if it.i >= n {
		return tupV(bV(false), Val{}, Val{})
	}
	i := it.i
	b := strBytes(it.v)
	if b[i].P == nil {
		if b[i].N < 0x80 {
			it.i++
			return tupV(bV(true), intV(i), Val{N: b[i].N})
		}
	} else {
		t := b[i].P.(*Term)
		if w.branch(w.m.Ult(t, w.m.C(8, 0x80))) {
			it.i++
			return tupV(bV(true), intV(i), w.fromTerm(w.m.ZExt(t, 32), scalar{32, true, true, false}))
		}
	}
	f := w.ex.P.prog.ImportedPackage("unicode/utf8").Func("DecodeRuneInString")
	res := w.call(w.ex.P.fn(f), []Val{mkStr(b[i:])}, nil, nil).P.(*Tuple)
	it.i += w.concInt(res.e[1])
	return tupV(bV(true), intV(i), res.e[0])
}

// ---------- calls ----------

func (c *compiler) args(cc *ssa.CallCommon) []*opnd {
	as := make([]*opnd, len(cc.Args))
	for i, a := range cc.Args {
		as[i] = c.op(a)
	}
	return as
}

func (c *compiler) callCommon(cc *ssa.CallCommon, rt types.Type) func(fr *Frame) Val {
	as := c.args(cc)
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		meth := cc.Method
		return func(fr *Frame) Val {
			fn, r := fr.w.resolve(recv.get(fr), meth)
			args := make([]Val, 0, len(as)+1)
			args = append(args, r)
			for _, a := range as {
				args = append(args, a.get(fr))
			}
			return fr.w.call(fn, args, nil, nil)
		}
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		return c.builtin(v, cc, as)
	case *ssa.Function:
		// static; package initialisers of other packages run lazily
		if v.Synthetic == "package initializer" {
			return func(fr *Frame) Val { return Val{} }
		}
		fn := c.P.fn(v)
		if len(as) <= 4 {
			return func(fr *Frame) Val {
				var buf [4]Val
				for i, a := range as {
					buf[i] = a.get(fr)
				}
				if fn.intr != nil {
					args := make([]Val, len(as))
					copy(args, buf[:])
					return fn.intr(fr.w, args)
				}
				return fr.w.call(fn, buf[:len(as)], nil, nil)
			}
		}
		return func(fr *Frame) Val {
			args := make([]Val, len(as))
			for i, a := range as {
				args[i] = a.get(fr)
			}
			return fr.w.call(fn, args, nil, nil)
		}
	}
	o := c.op(cc.Value)
	return func(fr *Frame) Val {
		f := o.get(fr)
		args := make([]Val, len(as))
		for i, a := range as {
			args[i] = a.get(fr)
		}
		return fr.w.callVal(f, args, nil)
	}
}

func (w *World) callVal(f Val, args []Val, deferOf *Frame) Val {
	cl, ok := f.P.(*Closure)
	if !ok || cl == nil {
		w.goPanicStr("invalid memory address or nil pointer dereference")
	}
	if cl.nat != nil {
		return cl.nat(w, args)
	}
	if cl.fn.Synthetic == "package initializer" {
		return Val{}
	}
	return w.callEnv(w.ex.P.fn(cl.fn), args, cl.env, deferOf)
}

func (w *World) callEnv(fn *Fn, args, env []Val, deferOf *Frame) Val {
	if fn.intr != nil {
		return fn.intr(w, append(args, env...))
	}
	w.ex.P.compiled(fn)
	if len(env) > 0 {
		args = append(append(make([]Val, 0, len(args)+len(env)), args...), env...)
	}
	return w.call(fn, args, nil, deferOf)
}

func (w *World) resolve(v Val, meth *types.Func) (*Fn, Val) {
	i, ok := v.P.(*Iface)
	if !ok || i == nil {
		w.goPanicStr("invalid memory address or nil pointer dereference")
	}
	return w.ex.P.method(i.t, meth), i.v
}

func (c *compiler) deferCall(cc *ssa.CallCommon) func(fr *Frame) func() {
	as := c.args(cc)
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		return func(fr *Frame) func() {
			fn, r := fr.w.resolve(recv.get(fr), cc.Method)
			args := []Val{r}
			for _, a := range as {
				args = append(args, a.get(fr))
			}
			return func() { fr.w.call(fn, args, nil, fr) }
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		do := c.builtin(b, cc, as)
		return func(fr *Frame) func() {
			return func() { do(fr) }
		}
	}
	o := c.op(cc.Value)
	return func(fr *Frame) func() {
		f := o.get(fr)
		args := make([]Val, len(as))
		for i, a := range as {
			args[i] = a.get(fr)
		}
		return func() { fr.w.callVal(f, args, fr) }
	}
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, as []*opnd) func(fr *Frame) Val {
	switch b.Name() {
	case "len":
		a := as[0]
		t := cc.Args[0].Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			n := int(p.Elem().Underlying().(*types.Array).Len())
			return func(fr *Frame) Val { return intV(n) }
		}
		return func(fr *Frame) Val {
			switch p := a.get(fr).P.(type) {
			case nil:
				return Val{}
			case *Slice:
				return intV(len(p.e))
			case string:
				return intV(len(p))
			case *Str:
				return intV(len(p.b))
			case *Agg:
				return intV(len(p.e))
			case *MapV:
				return intV(p.n)
			default:
				panic(unsupported(fmt.Sprintf("len of %T", p)))
			}
		}
	case "cap":
		a := as[0]
		return func(fr *Frame) Val {
			switch p := a.get(fr).P.(type) {
			case nil:
				return Val{}
			case *Slice:
				return intV(cap(p.e))
			case *Agg:
				return intV(len(p.e))
			default:
				panic(unsupported(fmt.Sprintf("cap of %T", p)))
			}
		}
	case "append":
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		ag := needsAgg(et)
		if len(as) == 1 {
			return func(fr *Frame) Val { return as[0].get(fr) }
		}
		fromStr := isStringT(cc.Args[1].Type())
		return func(fr *Frame) Val {
			d := as[0].get(fr)
			var src []Val
			if fromStr {
				src = strBytes(as[1].get(fr))
			} else {
				src = sliceElems(as[1].get(fr))
			}
			return fr.w.appendVals(d, src, ag, et)
		}
	case "copy":
		fromStr := isStringT(cc.Args[1].Type())
		return func(fr *Frame) Val {
			dst := sliceElems(as[0].get(fr))
			var src []Val
			if fromStr {
				src = strBytes(as[1].get(fr))
			} else {
				src = sliceElems(as[1].get(fr))
			}
			n := len(dst)
			if len(src) < n {
				n = len(src)
			}
			fr.w.copyVals(dst[:n], src[:n])
			return intV(n)
		}
	case "delete":
		kt := cc.Args[0].Type().Underlying().(*types.Map).Key()
		return func(fr *Frame) Val {
			if mv, ok := as[0].get(fr).P.(*MapV); ok {
				fr.w.mapDelete(mv, kt, as[1].get(fr))
			}
			return Val{}
		}
	case "clear":
		return func(fr *Frame) Val {
			switch p := as[0].get(fr).P.(type) {
			case *Slice:
				et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
				for i := range p.e {
					fr.w.store(&p.e[i], zeroVal(et))
				}
			case nil:
			default:
				panic(unsupported("clear of a map"))
			}
			return Val{}
		}
	case "print", "println":
		return func(fr *Frame) Val { return Val{} }
	case "recover":
		return func(fr *Frame) Val {
			d := fr.deferOf
			if d != nil && d.panicking != nil {
				v := d.panicking.v
				d.panicking = nil
				return v
			}
			return Val{}
		}
	case "ssa:wrapnilchk":
		return func(fr *Frame) Val {
			v := as[0].get(fr)
			if v.P == nil {
				fr.w.goPanicStr("value method called using nil pointer")
			}
			return v
		}
	case "min", "max":
		s := scalarOf(cc.Args[0].Type())
		isMin := b.Name() == "min"
		return func(fr *Frame) Val {
			w := fr.w
			v := as[0].get(fr)
			for _, a := range as[1:] {
				u := a.get(fr)
				if s.float {
					x, y := fl(v, nil), fl(u, nil)
					if isMin == (y < x) {
						v = u
					}
					continue
				}
				if !s.ok {
					panic(unsupported("min/max"))
				}
				var c Val
				if u.P == nil && v.P == nil {
					c = concBin(w, token.LSS, s, u.N, v.N)
				} else {
					c = w.symBin(token.LSS, s, u, v)
				}
				if c.P == nil {
					if (c.N != 0) == isMin {
						v = u
					}
					continue
				}
				if w.branch(c.P.(*Term)) == isMin {
					v = u
				}
			}
			return v
		}
	case "String": // unsafe.String
		return func(fr *Frame) Val {
			n := fr.w.concInt(as[1].get(fr))
			if n == 0 {
				return Val{}
			}
			p := as[0].get(fr).P.(*Val)
			return mkStr(unsafe.Slice(p, n))
		}
	case "Slice": // unsafe.Slice
		return func(fr *Frame) Val {
			n := fr.w.concInt(as[1].get(fr))
			p, ok := as[0].get(fr).P.(*Val)
			if !ok || p == nil {
				return Val{}
			}
			return Val{P: &Slice{unsafe.Slice(p, n)}}
		}
	case "SliceData":
		return func(fr *Frame) Val {
			s, ok := as[0].get(fr).P.(*Slice)
			if !ok {
				return Val{}
			}
			if cap(s.e) == 0 {
				return Val{P: new(Val)}
			}
			return Val{P: &s.e[:1][0]}
		}
	case "StringData":
		return func(fr *Frame) Val {
			b := strBytes(as[0].get(fr))
			if len(b) == 0 {
				return Val{}
			}
			c := make([]Val, len(b))
			copy(c, b)
			return Val{P: &c[0]}
		}
	}
	name := b.Name()
	return func(fr *Frame) Val { panic(unsupported("builtin " + name)) }
}

func (w *World) copyVals(dst, src []Val) {
	if len(dst) == 0 {
		return
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	// overlapping regions: copy through a temporary when needed
	tmp := src
	if overlaps(dst, src) {
		tmp = make([]Val, len(src))
		for i := range src {
			tmp[i] = copyVal(src[i])
		}
	}
	for i := range dst {
		w.store(&dst[i], tmp[i])
	}
}

func overlaps(a, b []Val) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	sz := unsafe.Sizeof(Val{})
	a0, b0 := uintptr(unsafe.Pointer(&a[0])), uintptr(unsafe.Pointer(&b[0]))
	return a0 < b0+uintptr(len(b))*sz && b0 < a0+uintptr(len(a))*sz
}

func (w *World) appendVals(d Val, src []Val, ag bool, et types.Type) Val {
	dst := sliceElems(d)
	if len(src) == 0 {
		return d
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	n := len(dst) + len(src)
	if n <= cap(dst) {
		full := dst[:n]
		w.copyVals(full[len(dst):], src)
		return Val{P: &Slice{full}}
	}
	if n > 1<<25 {
		panic(&pathEnd{"bound", "append beyond 2^25 elements"})
	}
	// Go's growth: capacity observable; approximate the runtime's rule for bytes
	c := growCap(cap(dst), n)
	ne := make([]Val, n, c)
	for i := range dst {
		ne[i] = copyVal(dst[i])
	}
	for i := range src {
		ne[len(dst)+i] = copyVal(src[i])
	}
	if ag {
		full := ne[:c]
		for i := n; i < c; i++ {
			full[i] = zeroVal(et)
		}
	}
	return Val{P: &Slice{ne}}
}

func growCap(old, need int) int {
	c := old
	if need > 2*old {
		c = need
	} else if old < 256 {
		c = 2 * old
	} else {
		for c < need {
			c += (c + 768) / 4
		}
	}
	// round up to a size class of 8/16 bytes
	if c <= 8 {
		return 8
	}
	return (c + 15) &^ 15
}

// lengthBlind: the call is (*big.Int).Bytes and its result is only used where leading zero bytes make
// no difference (as a scalar or as the argument of SetBytes), so its length need not be decided.
func lengthBlind(x *ssa.Call) bool {
	f := x.Call.StaticCallee()
	if f == nil || f.String() != "(*math/big.Int).Bytes" || x.Referrers() == nil {
		return false
	}
	for _, u := range *x.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			n := ""
			if u.Call.IsInvoke() {
				n = u.Call.Method.FullName()
			} else if g := u.Call.StaticCallee(); g != nil {
				n = g.String()
			}
			switch n {
			case "(*crypto/elliptic.CurveParams).ScalarMult", "(*crypto/elliptic.CurveParams).ScalarBaseMult",
				"(crypto/elliptic.Curve).ScalarMult", "(crypto/elliptic.Curve).ScalarBaseMult", "(*math/big.Int).SetBytes":
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}
