package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver drives one z3 process.
type Solver struct {
	m       *TM
	cmd     *exec.Cmd
	in      *bufio.Writer
	inp     io.WriteCloser
	out     *bufio.Reader
	gen     int // print generation (bumped on restart)
	defs    int
	asserts []*Term // currently asserted on the stack (path condition)
	pushed  int
	ufDecl  map[string]bool
	tabDecl map[int]bool
	ufApps  []*Term // printed UF applications
	ufDone  int     // of them with functional consistency asserted
	inAck   bool
	acks    []*Term
	varsP   []*Term // printed variables
	timeout int     // ms

	Queries  int
	SatN     int
	UnsatN   int
	UnknownN int
	Time     time.Duration
	Errors   []string
	log      io.Writer
}

func NewSolver(m *TM) *Solver {
	s := &Solver{m: m, timeout: 10000}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3Path(), "-in", "-smt2")
	inp, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	s.inp = inp
	s.in = bufio.NewWriterSize(inp, 1<<16)
	op, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.out = bufio.NewReaderSize(op, 1<<16)
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.gen = nextGen()
	s.defs = 0
	s.ufDecl = map[string]bool{}
	s.tabDecl = map[int]bool{}
	s.ufApps = nil
	s.ufDone, s.acks = 0, nil
	s.varsP = nil
	s.asserts = nil
	s.pushed = 0
	s.send("(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :model.completion true)\n", s.timeout)
}

func z3Path() string {
	if p := os.Getenv("GMSYM_Z3"); p != "" {
		return p
	}
	for _, p := range []string{"/usr/local/bin/z3-new", "/opt/veriftools/bin/z3-new"} {
		if _, err := os.Stat(p); err == nil {
			return p
		}
	}
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inp.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) Restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(f string, a ...any) {
	if s.log != nil {
		fmt.Fprintf(s.log, f, a...)
	}
	fmt.Fprintf(s.in, f, a...)
}

func (s *Solver) SetTimeout(ms int) {
	if ms != s.timeout {
		s.timeout = ms
		s.send("(set-option :timeout %d)\n", ms)
	}
}

func bvLit(w int, v *big.Int) string {
	if w%4 == 0 {
		h := v.Text(16)
		return "#x" + strings.Repeat("0", w/4-len(h)) + h
	}
	h := v.Text(2)
	return "#b" + strings.Repeat("0", w-len(h)) + h
}

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		return bvLit(t.w, t.bigVal())
	}
	return fmt.Sprintf("t%d", t.id)
}

// define makes sure t is defined in the solver.
func (s *Solver) define(t *Term) {
	if t.op == OConst || t.pgen == s.gen {
		return
	}
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || f.t.pgen == s.gen {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) && f.t.op != OUF {
			a := f.t.args[f.i]
			f.i++
			if a.op != OConst && a.pgen != s.gen {
				st = append(st, fr{a, 0})
			}
			continue
		}
		s.define1(f.t)
		f.t.pgen = s.gen
		st = st[:len(st)-1]
	}
	for s.ufDone < len(s.ufApps) && !s.inAck {
		u := s.ufApps[s.ufDone]
		for _, v := range s.ufApps[:s.ufDone] {
			if v.name != u.name || len(v.args) != len(u.args) || v.w != u.w {
				continue
			}
			eq := s.m.T
			for i := range u.args {
				eq = s.m.BAnd(eq, s.m.Eq(u.args[i], v.args[i]))
			}
			if eq == s.m.F {
				continue
			}
			c := s.m.BOr(s.m.BNot(eq), s.m.Eq(u, v))
			s.inAck = true
			s.define(c)
			s.inAck = false
			s.send("(assert %s)\n", s.ref(c))
			s.acks = append(s.acks, c)
		}
		s.ufDone++
	}
}

func (s *Solver) define1(t *Term) {
	s.defs++
	switch t.op {
	case OVar:
		s.send("(declare-const t%d %s)\n", t.id, sortName(t.w))
		s.varsP = append(s.varsP, t)
		return
	case OUF: // a fresh constant; functional consistency is asserted pairwise
		s.send("(declare-const t%d %s)\n", t.id, sortName(t.w))
		s.ufApps = append(s.ufApps, t)
		return
	case OTable:
		id := int(t.k)
		key := id*1000 + t.args[0].w
		if !s.tabDecl[key] {
			s.tabDecl[key] = true
			s.declTable(id, t.args[0].w, key)
		}
	}
	s.send("(define-fun t%d () %s ", t.id, sortName(t.w))
	s.body(t)
	s.send(")\n")
}

func (s *Solver) declTable(id, iw, key int) {
	vals, w := s.m.tables[id], s.m.tabWid[id]
	// binary decision tree over the bits of x
	n := 1 << uint(iw)
	var rec func(lo, n, bit int) string
	val := func(i int) uint64 {
		if i < len(vals) {
			return vals[i]
		}
		return 0
	}
	rec = func(lo, n, bit int) string {
		if n == 1 {
			return bvLit(w, new(big.Int).SetUint64(val(lo)&mask(w)))
		}
		same := true
		for i := 1; i < n; i++ {
			if val(lo+i) != val(lo) {
				same = false
				break
			}
		}
		if same {
			return bvLit(w, new(big.Int).SetUint64(val(lo)&mask(w)))
		}
		return fmt.Sprintf("(ite (= ((_ extract %d %d) x) #b1) %s %s)", bit, bit, rec(lo+n/2, n/2, bit-1), rec(lo, n/2, bit-1))
	}
	if iw > 16 { // large index: chain over the table, zero beyond
		body := bvLit(w, new(big.Int))
		for i := len(vals) - 1; i >= 0; i-- {
			body = fmt.Sprintf("(ite (= x %s) %s %s)", bvLit(iw, big.NewInt(int64(i))), bvLit(w, new(big.Int).SetUint64(vals[i]&mask(w))), body)
		}
		s.send("(define-fun tab%d ((x %s)) %s %s)\n", key, sortName(iw), sortName(w), body)
		return
	}
	s.send("(define-fun tab%d ((x %s)) %s %s)\n", key, sortName(iw), sortName(w), rec(0, n, iw-1))
}

func (s *Solver) body(t *Term) {
	nary := func(op string, as []*Term) {
		s.send("(%s", op)
		for _, a := range as {
			s.send(" %s", s.ref(a))
		}
		s.send(")")
	}
	left := func(op string, as []*Term) {
		for i := 1; i < len(as); i++ {
			s.send("(%s ", op)
		}
		s.send("%s", s.ref(as[0]))
		for _, a := range as[1:] {
			s.send(" %s)", s.ref(a))
		}
	}
	switch t.op {
	case OUF:
		if len(t.args) == 0 {
			s.send("|%s|", t.name)
		} else {
			nary("|"+t.name+"|", t.args)
		}
	case OXor:
		left("bvxor", t.args)
	case OAnd:
		left("bvand", t.args)
	case OOr:
		left("bvor", t.args)
	case OAdd:
		left("bvadd", t.args)
	case OMulC:
		c := t.coef()
		if c.Cmp(bigMask(t.w)) == 0 {
			s.send("(bvneg %s)", s.ref(t.args[0]))
		} else {
			s.send("(bvmul %s %s)", bvLit(t.w, c), s.ref(t.args[0]))
		}
	case OMul:
		nary("bvmul", t.args)
	case OUDiv:
		nary("bvudiv", t.args)
	case OURem:
		nary("bvurem", t.args)
	case OSDiv:
		nary("bvsdiv", t.args)
	case OSRem:
		nary("bvsrem", t.args)
	case OShl:
		nary("bvshl", t.args)
	case OLShr:
		nary("bvlshr", t.args)
	case OAShr:
		nary("bvashr", t.args)
	case OConcat:
		left("concat", t.args)
	case OExtract:
		s.send("((_ extract %d %d) %s)", int(t.k)+t.w-1, t.k, s.ref(t.args[0]))
	case OSExt:
		s.send("((_ sign_extend %d) %s)", t.w-t.args[0].w, s.ref(t.args[0]))
	case OIte:
		nary("ite", t.args)
	case OTable:
		s.send("(tab%d %s)", int(t.k)*1000+t.args[0].w, s.ref(t.args[0]))
	case OEq:
		nary("=", t.args)
	case OUlt:
		nary("bvult", t.args)
	case OUle:
		nary("bvule", t.args)
	case OSlt:
		nary("bvslt", t.args)
	case OSle:
		nary("bvsle", t.args)
	case OBAnd:
		nary("and", t.args)
	case OBOr:
		nary("or", t.args)
	case OBNot:
		nary("not", t.args)
	default:
		panic(fmt.Sprintf("print op %d", t.op))
	}
}

// Reset drops the path condition.
func (s *Solver) Reset() {
	if s.pushed > 0 {
		s.send("(pop %d)\n", s.pushed)
		s.pushed = 0
	}
	s.asserts = s.asserts[:0]
	if s.defs > 400000 {
		s.Restart()
	}
}

// Assert adds t to the path condition (until Reset).
func (s *Solver) Assert(t *Term) {
	if t == s.m.T {
		return
	}
	s.define(t)
	if s.pushed == 0 {
		s.send("(push 1)\n")
		s.pushed = 1
	}
	s.send("(assert %s)\n", s.ref(t))
	s.asserts = append(s.asserts, t)
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides pc && extra. On Sat and wantModel, returns a model.
func (s *Solver) Check(wantModel bool, extra ...*Term) (res Result, _ *Model) {
	for _, e := range extra {
		if e == s.m.F {
			return Unsat, nil
		}
	}
	t0 := time.Now()
	defer func() {
		s.Time += time.Since(t0)
		if d := time.Since(t0); slowQuery > 0 && d > slowQuery {
			fmt.Fprintf(os.Stderr, "slow query %v: %v asserts=%d extra=%s\n", d, res, len(s.asserts), show(extra))
		}
	}()
	s.Queries++
	for _, e := range extra {
		s.define(e)
	}
	s.send("(push 1)\n")
	for _, e := range extra {
		s.send("(assert %s)\n", s.ref(e))
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	type lr struct {
		l   string
		err error
	}
	var l string
	done := make(chan lr, 1)
	go func() {
		x, e := s.readLine()
		done <- lr{x, e}
	}()
	select {
	case r := <-done:
		l = r.l
		if r.err != nil {
			l = "died"
		}
	case <-time.After(time.Duration(s.timeout)*time.Millisecond + 5*time.Second):
		l = "hang"
	}
	switch l {
	case "sat":
		s.SatN++
	case "unsat":
		s.UnsatN++
		s.send("(pop 1)\n")
		return Unsat, nil
	case "died", "hang":
		s.UnknownN++
		as := append([]*Term(nil), s.asserts...)
		s.Restart()
		for _, a := range as {
			s.Assert(a)
		}
		return Unknown, nil
	default:
		s.UnknownN++
		if strings.HasPrefix(l, "(error") {
			s.Errors = append(s.Errors, l)
			// drain: restart to be safe
			as := append([]*Term(nil), s.asserts...)
			s.Restart()
			for _, a := range as {
				s.Assert(a)
			}
			return Unknown, nil
		}
		s.send("(pop 1)\n")
		return Unknown, nil
	}
	var mod *Model
	if wantModel {
		mod = s.getModel(extra)
		if mod == nil {
			return Unknown, nil
		}
	}
	s.send("(pop 1)\n")
	return Sat, mod
}

// relevant collects the variables and UF applications under the asserted terms.
func (s *Solver) relevant(extra []*Term) (vs, ufs []*Term) {
	seen := map[*Term]bool{}
	var st []*Term
	st = append(st, s.asserts...)
	st = append(st, extra...)
	st = append(st, s.acks...)
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if t.op == OConst || seen[t] {
			continue
		}
		seen[t] = true
		switch t.op {
		case OVar:
			if t.pgen == s.gen {
				vs = append(vs, t)
			}
		case OUF:
			if t.pgen == s.gen {
				ufs = append(ufs, t)
			}
		}
		st = append(st, t.args...)
	}
	return
}

func (s *Solver) getModel(extra []*Term) *Model {
	vs, ufs := s.relevant(extra)
	mod := NewModel()
	all := append(append([]*Term(nil), vs...), ufs...)
	if len(all) == 0 {
		return mod
	}
	q := all
	s.send("(get-value (")
	for _, t := range q {
		s.send("%s ", s.ref(t))
	}
	s.send("))\n")
	s.in.Flush()
	txt, err := s.readSexp()
	if err != nil || strings.HasPrefix(txt, "(error") {
		s.Errors = append(s.Errors, "get-value: "+txt)
		return nil
	}
	vals := map[string]*big.Int{}
	parseValues(txt, vals)
	for _, t := range vs {
		if v, ok := vals[s.ref(t)]; ok {
			mod.vars[t.name] = v
		}
	}
	sort.Slice(ufs, func(i, j int) bool { return ufs[i].id < ufs[j].id }) // inner applications first
	s.m.gen++
	for _, u := range ufs {
		key := ""
		for _, a := range u.args {
			key += new(big.Int).Set(s.m.Eval(a, mod)).Text(62) + ","
		}
		tab := mod.uf[u.name]
		if tab == nil {
			tab = map[string]*big.Int{}
			mod.uf[u.name] = tab
		}
		tab[key] = vals[s.ref(u)]
		s.m.gen++
	}
	return mod
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return sb.String(), err
		}
		sb.WriteString(l)
		for _, c := range l {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		if depth <= 0 {
			return strings.TrimSpace(sb.String()), nil
		}
	}
}

func parseValues(txt string, out map[string]*big.Int) {
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' || r == '\r' })
	for i := 0; i+1 < len(toks); i += 2 {
		v := toks[i+1]
		x := new(big.Int)
		switch {
		case v == "true":
			x.SetInt64(1)
		case v == "false":
		case strings.HasPrefix(v, "#x"):
			x.SetString(v[2:], 16)
		case strings.HasPrefix(v, "#b"):
			x.SetString(v[2:], 2)
		default:
			continue
		}
		out[toks[i]] = x
	}
}

var slowQuery = func() time.Duration { d, _ := time.ParseDuration(os.Getenv("GMSYM_SLOW")); return d }()

func show(ts []*Term) (r string) {
	for _, t := range ts {
		r += t.String() + " "
	}
	if len(r) > 300 {
		r = r[:300]
	}
	return
}

// String is a debugging form, cut at a small depth.
func (t *Term) String() string { return t.str(5) }

func (t *Term) str(d int) string {
	if t.op == OConst {
		if t.w == 0 {
			return fmt.Sprint(t.k != 0)
		}
		return "0x" + t.bigVal().Text(16)
	}
	if t.op == OVar {
		return t.name
	}
	if d == 0 {
		return "_"
	}
	s := "(" + opNames[t.op]
	if t.op == OExtract {
		s += fmt.Sprintf("[%d+%d]", t.k, t.w)
	}
	if t.op == OUF {
		s += t.name
	}
	for i, a := range t.args {
		if i > 5 {
			s += " .."
			break
		}
		s += " " + a.str(d-1)
	}
	return s + ")"
}
