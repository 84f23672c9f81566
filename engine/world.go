package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- control-flow panics of the engine ----

type goPanic struct{ v Val } // a Go panic of the interpreted program; v is an interface value

type pathEnd struct { // the path ends here
	kind string // "assume", "unsupported", "bound", "stop", "infeasible"
	msg  string
}

func unsupported(msg string) *pathEnd { return &pathEnd{"unsupported", msg} }

type specAbort struct{}

// ---- decisions ----

type Decision struct {
	kind  uint8 // 0 bool, 1 choice, 2 concretisation
	taken bool
	v     uint64
}

type Job struct {
	h      *Harness
	cse    []int // sym.Choose values fixed by the case (unused: choices are decisions)
	prefix []Decision
	model  *Model
	low    bool
}

type undoRec struct {
	p   *Val
	old Val
}

// World is one worker's interpreter state.
type World struct {
	uniq      map[string]Val // unique.Make
	ex        *Explorer
	m         *TM
	s         *Solver
	s2        *Solver
	engineOK  bool
	pcUnknown bool
	nextTick  int64
	glob      []*Val
	inited    map[*ssa.Package]int
	trail     []undoRec
	undos     []func()
	log       bool
	inInit    int

	// path state
	job         *Job
	decs        []Decision
	decIdx      int
	pc          []*Term
	pcSent      int
	model       *Model
	steps       int64
	maxSteps    int64
	depth       int
	spec        int
	inputs      []InputRec
	inputIdx    map[string]int
	observes    []Obs
	frozen      map[*Val]string
	allowed     map[*Val]bool
	once        int
	asserts     int
	reached     map[string]bool
	notes       map[string]int
	funcs       map[*Fn]int64
	stubbed     bool
	noExit      map[*Fn]int
	redirect    map[*Fn]*Fn
	pathErr     string
	deadline    time.Time
	lastViol    *Violation
	native      map[string]any
	bnN         int
	ext         map[string]any // per-path extension state (EC model etc.)
	newJobs     []*Job
	trace       bool
	curFn       *Fn
	stk         []*Fn
	solverDirty bool
	assumeQ     []*Term
	onces       map[*Val]bool
	pools       map[*Val][]Val
}

type InputRec struct {
	Name string
	Kind string // bytes, uint, choice
	W    int
	T    []*Term
	C    uint64
}

type Obs struct {
	name string
	v    []Val
	w    int
}

type Violation struct {
	Harness  string
	Msg      string
	Model    *Model
	Inputs   map[string]any
	Choices  map[string]int
	Confirm  string
	Replay   string
	Where    string
	Prefix   []Decision
	UFs      []string
	Stubbed  bool
	panicMsg string
	EngineOK bool
}

func NewWorld(ex *Explorer) *World {
	w := &World{ex: ex, inited: map[*ssa.Package]int{}, funcs: map[*Fn]int64{}, notes: map[string]int{}, reached: map[string]bool{}}
	w.glob = make([]*Val, len(ex.P.globals))
	w.m = NewTM()
	w.s = NewSolver(w.m)
	w.maxSteps = ex.MaxSteps
	w.trace = os.Getenv("GMSYM_TRACE") != ""
	return w
}

// stack names the n innermost functions being executed.
func (w *World) stack(n int) string {
	s := ""
	for i := len(w.stk) - 1; i >= 0 && n > 0; i, n = i-1, n-1 {
		s += " < " + w.stk[i].f.String()
	}
	return s
}

func (w *World) store(p *Val, v Val) {
	if a, ok := p.P.(*Agg); ok {
		b, ok := v.P.(*Agg)
		if !ok {
			if v.P == nil {
				panic("store nil aggregate")
			}
			panic(fmt.Sprintf("store %T over aggregate in %v", v.P, w.stack(7)))
		}
		if a == b {
			return
		}
		for i := range a.e {
			w.store(&a.e[i], b.e[i])
		}
		return
	}
	if w.frozen != nil {
		if what, ok := w.frozen[p]; ok && w.once == 0 {
			w.frozenStore(p, what, v)
		}
	}
	if w.log {
		w.trail = append(w.trail, undoRec{p, *p})
	}
	if _, ok := v.P.(*Agg); ok {
		v = copyVal(v)
	}
	*p = v
}

func (w *World) undo(f func()) {
	if w.log {
		w.trail = append(w.trail, undoRec{nil, Val{P: f}})
	}
}

func (w *World) rollback() {
	for i := len(w.trail) - 1; i >= 0; i-- {
		r := &w.trail[i]
		if r.p == nil {
			r.old.P.(func())()
		} else {
			*r.p = r.old
		}
		*r = undoRec{}
	}
	w.trail = w.trail[:0]
	if cap(w.trail) > 4<<20 {
		w.trail = nil
	}
}

// ---- globals and lazy package initialisation ----

func (w *World) global(i int) *Val {
	p := w.glob[i]
	if p == nil {
		g := w.ex.P.globals[i]
		z := zeroVal(g.Type().Underlying().(*types.Pointer).Elem())
		p = new(Val)
		*p = z
		w.glob[i] = p
	}
	pkg := w.ex.P.globPkg[i]
	if w.inited[pkg] == 0 {
		w.initPkg(pkg)
	}
	return p
}

func (w *World) initPkg(pkg *ssa.Package) {
	if pkg == nil || w.inited[pkg] != 0 {
		return
	}
	w.inited[pkg] = 1
	if skipInit[pkg.Pkg.Path()] {
		w.inited[pkg] = 2
		return
	}
	f := pkg.Func("init")
	if f == nil {
		w.inited[pkg] = 2
		return
	}
	ol, osp, od, oc, of := w.log, w.spec, w.depth, w.curFn, w.frozen
	w.log, w.spec, w.frozen = false, 0, nil
	w.inInit++
	steps := w.steps
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.ex.note(fmt.Sprintf("init of %s stopped: %s", pkg.Pkg.Path(), w.describePanic(r)))
			}
		}()
		w.call(w.ex.P.fn(f), nil, nil, nil)
	}()
	w.steps = steps
	w.inInit--
	w.log, w.spec, w.depth, w.curFn, w.frozen = ol, osp, od, oc, of
	w.inited[pkg] = 2
}

func (w *World) describePanic(r any) string {
	switch p := r.(type) {
	case *goPanic:
		return "panic: " + w.panicString(p.v)
	case *pathEnd:
		return p.kind + ": " + p.msg
	}
	return fmt.Sprint(r)
}

func (w *World) panicString(v Val) string {
	if v.P == nil {
		return "nil"
	}
	i, ok := v.P.(*Iface)
	if !ok {
		return fmt.Sprintf("%T", v.P)
	}
	if isStringT(i.t) {
		if s, ok := goStr(i.v); ok {
			return s
		}
		return "(symbolic string)"
	}
	if pt, ok := i.t.(*types.Pointer); ok {
		if p, ok := i.v.P.(*Val); ok {
			if a, ok := p.P.(*Agg); ok && len(a.e) > 0 {
				if s, ok := goStr(a.e[0]); ok {
					return pt.Elem().String() + ": " + s
				}
			}
		}
	}
	return i.t.String()
}

// goPanicStr raises a runtime error in the interpreted program.
func (w *World) goPanicStr(msg string) {
	if w.spec > 0 {
		panic(specAbort{})
	}
	panic(&goPanic{Val{P: &Iface{w.ex.P.rtErr, strV(msg)}}})
}

// ---- branching ----

func (w *World) assume(t *Term) {
	if t == w.m.T {
		return
	}
	w.pc = append(w.pc, t)
	w.learn(t)
	if w.model != nil && !w.m.EvalBool(t, w.model) {
		w.model = nil
	}
}

func (w *World) flushPC() {
	if w.solverDirty == false {
		w.solverDirty = true
	}
	for ; w.pcSent < len(w.pc); w.pcSent++ {
		w.s.Assert(w.pc[w.pcSent])
	}
}

func (w *World) check(want bool, extra ...*Term) (Result, *Model) {
	w.flushPC()
	return w.s.Check(want, extra...)
}

func (w *World) setModel(m *Model) {
	w.model = m
	w.m.gen++
}

// ensureModel makes w.model satisfy the path condition.
func (w *World) ensureModel() bool {
	if w.model != nil {
		return true
	}
	if w.pcUnknown && w.ex.branchUnknown.Load() >= 6 {
		return false // larger path conditions will not be decided either
	}
	r, m := w.check(true)
	switch r {
	case Unknown:
		w.pcUnknown = true
		w.ex.branchUnknown.Add(1)
	case Sat:
		w.setModel(m)
		return true
	case Unsat:
		panic(&pathEnd{"infeasible", ""})
	}
	return false
}

func (w *World) pushJob(d Decision, m *Model) {
	pre := make([]Decision, len(w.decs)+1)
	copy(pre, w.decs)
	pre[len(w.decs)] = d
	if m != nil {
		m = m.clone()
	}
	w.newJobs = append(w.newJobs, &Job{h: w.job.h, prefix: pre, model: m})
}

// checkBranch is a feasibility check.  Its time limit shrinks when the checks
// of this harness keep running into it, and in the end conditions at least as
// large as those that could not be decided are not tried any more: an undecided
// side is explored anyway (later than the others), so this costs no coverage.
func (w *World) checkBranch(c *Term) (Result, *Model) {
	n := w.ex.branchUnknown.Load()
	old := w.s.timeout
	size := int64(0)
	switch {
	case n >= 6:
		size = int64(dagSize(c, 20000))
		if size >= w.ex.branchHard.Load() {
			return Unknown, nil
		}
		w.s.SetTimeout(250)
	case n >= 2:
		w.s.SetTimeout(1000)
	}
	r, m := w.check(true, c)
	w.s.SetTimeout(old)
	if r == Unknown {
		w.ex.branchUnknown.Add(1)
		if size == 0 {
			size = int64(dagSize(c, 20000))
		}
		for {
			h := w.ex.branchHard.Load()
			if h != 0 && h <= size || w.ex.branchHard.CompareAndSwap(h, size) {
				break
			}
		}
	}
	return r, m
}

// branch decides a symbolic condition, forking when both outcomes are feasible.
func (w *World) branch(c *Term) bool {
	if c.op == OConst {
		return c.k != 0
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	if w.inInit > 0 {
		panic(unsupported("symbolic branch in package initialisation"))
	}
	if w.decIdx < len(w.job.prefix) {
		d := w.job.prefix[w.decIdx]
		if d.kind != 0 {
			panic(&pathEnd{"unsupported", "replay mismatch (branch)"})
		}
		w.decIdx++
		w.decs = append(w.decs, d)
		if d.taken {
			w.assume(c)
		} else {
			w.assume(w.m.BNot(c))
		}
		if w.decIdx == len(w.job.prefix) {
			w.setModel(w.job.model)
		}
		return d.taken
	}
	w.tick()
	nc := w.m.BNot(c)
	var side bool
	if w.ensureModel() {
		side = w.m.EvalBool(c, w.model)
		other := nc
		if !side {
			other = c
		}
		r, m := Sat, w.patch(other)
		if m == nil {
			r, m = w.checkBranch(other)
		}
		switch r {
		case Unknown:
			w.note("solver unknown on a branch: explored anyway")
			w.pushJob(Decision{0, !side, 0}, nil)
			w.newJobs[len(w.newJobs)-1].low = true
		case Sat:
			w.pushJob(Decision{0, !side, 0}, m)
		}
	} else {
		// no model known: explore both sides
		w.note("solver unknown on a path condition")
		side = true
		w.pushJob(Decision{0, false, 0}, nil)
	}
	w.decs = append(w.decs, Decision{0, side, 0})
	if side {
		w.assume(c)
	} else {
		w.assume(nc)
	}
	return side
}

// choose is an n-way fork without a condition.
func (w *World) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	if w.decIdx < len(w.job.prefix) {
		d := w.job.prefix[w.decIdx]
		if d.kind != 1 {
			panic(&pathEnd{"unsupported", "replay mismatch (choice)"})
		}
		w.decIdx++
		w.decs = append(w.decs, d)
		if w.decIdx == len(w.job.prefix) {
			w.setModel(w.job.model)
		}
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		w.pushJob(Decision{1, true, uint64(i)}, w.model)
	}
	w.decs = append(w.decs, Decision{1, true, 0})
	return 0
}

const concCap = 600

// concT concretises a term, forking over its feasible values.
func (w *World) concT(t *Term) *big.Int {
	if t.op == OConst {
		return t.bigVal()
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	if t.w > 64 {
		panic(unsupported("concretisation of a wide term"))
	}
	n := 0
	for {
		if w.decIdx < len(w.job.prefix) {
			d := w.job.prefix[w.decIdx]
			if d.kind != 2 {
				panic(&pathEnd{"unsupported", "replay mismatch (value)"})
			}
			w.decIdx++
			w.decs = append(w.decs, d)
			v := w.m.C(t.w, d.v)
			if d.taken {
				w.assume(w.m.Eq(t, v))
			} else {
				w.assume(w.m.BNot(w.m.Eq(t, v)))
			}
			if w.decIdx == len(w.job.prefix) {
				w.setModel(w.job.model)
			}
			n++
			if d.taken {
				return v.bigVal()
			}
			continue
		}
		w.tick()
		if !w.ensureModel() {
			panic(&pathEnd{"unsupported", "solver unknown while enumerating values"})
		}
		v := w.m.BigC(t.w, w.m.Eval(t, w.model))
		eq := w.m.Eq(t, v)
		r, m := w.check(true, w.m.BNot(eq))
		if r != Unsat {
			if n >= concCap {
				w.note("more than 600 feasible values of a concretised quantity")
			} else {
				w.pushJob(Decision{2, false, v.bigVal().Uint64()}, m)
			}
			if r == Unknown {
				w.note("solver unknown while enumerating values")
			}
		}
		w.decs = append(w.decs, Decision{2, true, v.bigVal().Uint64()})
		w.assume(eq)
		return v.bigVal()
	}
}

// conc concretises an integer value of the given width (canonical N returned raw, zero extended).
func (w *World) conc(v Val, width int) uint64 {
	if v.P == nil {
		return v.N
	}
	t, ok := v.P.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("conc of %T", v.P)))
	}
	return w.concT(t).Uint64()
}

// concInt concretises an int (64-bit signed).
func (w *World) concInt(v Val) int {
	if v.P == nil {
		return int(int64(v.N))
	}
	t := v.P.(*Term)
	u := w.concT(t).Uint64()
	return int(signed(u, t.w))
}

func (w *World) note(s string) {
	w.notes[s]++
}

func (w *World) tick() {
	if !w.deadline.IsZero() && time.Now().After(w.deadline) {
		panic(&pathEnd{"bound", "time budget of the check used up"})
	}
}

// ---- assertions ----

func (w *World) assertTerm(c *Term, msg string) {
	w.asserts++
	w.ex.count(func(s *Stats) { s.Asserts++ })
	if c == w.m.T {
		w.ex.count(func(s *Stats) { s.AssertsNF++ })
		return
	}
	nc := w.m.BNot(c)
	if w.decIdx < len(w.job.prefix) { // still replaying: decided on an earlier path with the same prefix
		w.assume(c)
		return
	}
	big := dagSize(c, bigDag) > bigDag
	if w.model != nil && !w.m.EvalBool(c, w.model) {
		w.violation(msg, w.model)
		w.afterViolation(c, big)
		return
	}
	if big {
		if m := w.randomWitness(c, 8); m != nil {
			w.violation(msg, m)
			w.afterViolation(c, big)
			return
		}
		if w.m.xorCap < xorLarge { // flatten further
			old := w.m.xorCap
			w.m.xorCap = xorLarge
			r := w.m.rebuildAll(c)
			w.m.xorCap = old
			if r == w.m.T {
				atomic.StoreInt32(&w.ex.xorCap, xorLarge)
				w.ex.count(func(s *Stats) { s.AssertsNF++ })
				return
			}
		}
		m := w.m
		m.canonBits = true
		r := m.rebuildAll(c)
		m.canonBits = false
		if r == m.T {
			w.ex.count(func(s *Stats) { s.AssertsNF++ })
			return
		}
		// a large equivalence: look for a difference by evaluation, then merge equal internal nodes
		if m := w.condWitness(c); m != nil {
			w.violation(msg, m)
			w.afterViolation(c, big)
			return
		}
		if w.sweepProve(c) {
			w.ex.count(func(s *Stats) { s.AssertsSolver++; s.Swept++ })
			return
		}
	}
	r, m := w.check(true, nc)
	switch r {
	case Unsat:
		w.ex.count(func(s *Stats) { s.AssertsSolver++ })
		return
	case Sat:
		w.violation(msg, m)
		w.afterViolation(c, big)
		return
	}
	if !big {
		m := w.randomWitness(c, 8)
		if m == nil {
			m = w.condWitness(c)
		}
		if m != nil {
			w.violation(msg, m)
			w.afterViolation(c, big)
			return
		}
		if w.sweepProve(c) {
			w.ex.count(func(s *Stats) { s.AssertsSolver++; s.Swept++ })
			return
		}
	}
	if os.Getenv("GMSYM_DIFF") != "" {
		debugAssert(c)
	}
	if os.Getenv("GMSYM_CEX") == "2" {
		_, ch := w.inputValues(NewModel())
		fmt.Fprintln(os.Stderr, "UNDECIDED", msg, ch, w.decs, c)
	}
	w.note("assertion undecided: " + msg)
	w.ex.count(func(s *Stats) { s.Undecided++ })
	w.assume(c)
}

// afterViolation continues under the violated assertion, to find further
// violations; a large one would only make everything after it undecidable.
func (w *World) afterViolation(c *Term, big bool) {
	if big {
		panic(&pathEnd{"stop", ""})
	}
	w.model = nil
	w.assume(c)
}

func (w *World) violation(msg string, m *Model) {
	v := &Violation{Harness: w.job.h.Name, Msg: msg, Model: m, Stubbed: w.stubbed, EngineOK: w.engineOK}
	v.Inputs, v.Choices = w.inputValues(m)
	v.Prefix = append([]Decision(nil), w.decs...)
	if os.Getenv("GMSYM_CEX") == "2" {
		fmt.Fprintln(os.Stderr, "VIOL", msg, v.Choices)
		w.dumpBig(m)
	}
	w.ex.addViolation(v)
	if w.ex.enough(v.Harness) {
		panic(&pathEnd{"stop", "violation found"})
	}
}

func (w *World) inputValues(mod *Model) (map[string]any, map[string]int) {
	w.m.gen++
	ins := map[string]any{}
	ch := map[string]int{}
	for _, in := range w.inputs {
		switch in.Kind {
		case "bytes":
			b := make([]byte, len(in.T))
			for i, t := range in.T {
				b[i] = byte(w.m.Eval(t, mod).Uint64())
			}
			ins[in.Name] = fmt.Sprintf("%x", b)
		case "uint":
			ins[in.Name] = w.m.Eval(in.T[0], mod).String()
		case "big":
			ins[in.Name] = w.m.Eval(in.T[0], mod).Text(16)
		case "choice":
			ch[in.Name] = int(in.C)
		}
	}
	w.m.gen++
	return ins, ch
}

// ---- path driver ----

func (w *World) runJob(j *Job) (kind, msg string) {
	w.job = j
	w.decs = w.decs[:0]
	w.decIdx = 0
	w.pcUnknown = false
	w.pc = w.pc[:0]
	w.pcSent = 0
	w.m = NewTM()
	w.m.lem = w.ex.lemmaRec(j.h.Name)
	w.m.xorCap = int(atomic.LoadInt32(&w.ex.xorCap))
	w.s.m = w.m
	if w.solverDirty {
		w.s.hardReset()
		w.solverDirty = false
	} else {
		w.s.gen = nextGen()
	}
	w.model = nil
	if len(j.prefix) == 0 {
		w.model = NewModel()
	}
	w.m.gen++
	w.steps = 0
	w.nextTick = 0
	w.depth = 0
	w.spec = 0
	w.inputs = nil
	w.inputIdx = map[string]int{}
	w.observes = nil
	w.frozen = nil
	w.allowed = nil
	w.once = 0
	w.asserts = 0
	w.stubbed = false
	w.noExit = nil
	w.redirect = nil
	w.ext = map[string]any{}
	w.newJobs = w.newJobs[:0]
	w.log = true
	w.native = nil
	kind = "done"
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch p := r.(type) {
				case *pathEnd:
					kind, msg = p.kind, p.msg
				case *goPanic:
					kind, msg = "panic", w.panicString(p.v)
				default:
					kind, msg = "engine", fmt.Sprint(r)
					if os.Getenv("GMSYM_DEBUG") != "" {
						panic(r)
					}
				}
			}
		}()
		w.call(w.ex.P.fn(j.h.Fn), nil, nil, nil)
	}()
	if kind == "panic" && w.decIdx >= len(j.prefix) {
		// an uncaught panic of the code under test is a violation
		m := w.model
		if m == nil {
			r, mm := w.check(true)
			if r == Sat {
				m = mm
			}
			if r == Unsat {
				kind = "infeasible"
			}
		}
		if m != nil {
			func() {
				defer func() { recover() }()
				w.violation("uncaught panic: "+msg, m)
			}()
		}
	}
	if kind == "bound" && strings.HasPrefix(msg, "step limit") && w.decIdx >= len(j.prefix) && w.model != nil {
		func() {
			defer func() { recover() }()
			w.violation("does not terminate within the step bound ("+msg+")", w.model)
		}()
	}
	w.log = false
	return
}

func (s *Solver) hardReset() {
	s.send("(reset)\n(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeout)
	s.gen = nextGen()
	s.defs = 0
	s.ufDecl = map[string]bool{}
	s.tabDecl = map[int]bool{}
	s.ufApps = nil
	s.ufDone, s.acks = 0, nil
	s.varsP = nil
	s.asserts = s.asserts[:0]
	s.pushed = 0
}

// freeze records every cell reachable from v (for the non-interference checks).
func (w *World) freezeVal(v Val, what string, seen map[any]bool) {
	switch p := v.P.(type) {
	case *Val:
		if p == nil || seen[p] {
			return
		}
		seen[p] = true
		w.freezeCell(p, what, seen)
	case *Agg:
		for i := range p.e {
			w.freezeCell(&p.e[i], what, seen)
		}
	case *Slice:
		if len(p.e) > 0 {
			e := p.e[:len(p.e):len(p.e)]
			for i := range e {
				w.freezeCell(&e[i], what, seen)
			}
		}
	case *Iface:
		w.freezeVal(p.v, what, seen)
	case *Closure:
		for _, e := range p.env {
			w.freezeVal(e, what, seen)
		}
	case *MapV:
		for _, e := range p.vals {
			w.freezeVal(e, what, seen)
		}
	}
}

func (w *World) freezeCell(p *Val, what string, seen map[any]bool) {
	if _, ok := w.frozen[p]; ok {
		return
	}
	if _, ok := p.P.(*Agg); !ok {
		w.frozen[p] = what
	}
	w.freezeVal(*p, what, seen)
}

func (w *World) frozenStore(p *Val, what string, v Val) {
	if w.allowed[p] {
		return
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	m := w.model
	if m == nil {
		r, mm := w.check(true)
		if r != Sat {
			return
		}
		m = mm
	}
	fn := ""
	if w.curFn != nil {
		fn = w.curFn.f.String()
	}
	w.engineOK = true // the witness is a store instruction; replaying values cannot show a racing store
	w.violation("store to pre-existing memory ("+what+") in "+fn, m)
	w.engineOK = false
	panic(&pathEnd{"stop", "store to frozen memory"})
}

func sortedFns(m map[*Fn]int64) []*Fn {
	var fs []*Fn
	for f := range m {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].f.String() < fs[j].f.String() })
	return fs
}
