package main

import (
	"bufio"
	"fmt"
	"math/big"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// The simplifying term constructors decide most assertions by themselves. Their steps are not taken on
// trust: on sampled paths every rewriting step (operator, arguments, result) is recorded as a lemma
// "operator(arguments) = result" over opaque sub-terms, and the SMT solver has to prove each one.

type lemmaT struct {
	args []*Term
	res  *Term
	op   Op
	w    int
	k    uint64
	coef *big.Int
}

// LemmaLog collects distinct lemmas.
type LemmaLog struct {
	mu    sync.Mutex
	shape map[string][]string // text at the shallow cut -> texts at the deeper cuts
	max   int
	Seen  int64
}

type lemmaRec struct {
	log  *LemmaLog
	left int
	in   bool
	n    int
}

func (m *TM) rec(op Op, w int, k uint64, coef *big.Int, args []*Term, res **Term) {
	r := m.lem
	if r == nil || r.left <= 0 || r.in || *res == nil {
		return
	}
	t := *res
	if t.op == op && len(t.args) == len(args) {
		same := true
		for i := range args {
			if args[i] != t.args[i] {
				same = false
				break
			}
		}
		if same {
			return
		}
	}
	r.n++
	if r.n > 1000 && r.n%17 != 0 {
		return
	}
	r.left--
	l := &lemmaT{append([]*Term(nil), args...), t, op, w, k, coef}
	depth := 2
	if m.recDeep {
		depth = 20
	}
	txt := l.text(m, depth)
	if txt == "" {
		return
	}
	r.log.mu.Lock()
	defer r.log.mu.Unlock()
	r.log.Seen++
	if _, ok := r.log.shape[txt]; ok || len(r.log.shape) >= r.log.max {
		return
	}
	deeper := []string{}
	for _, d := range []int{4, 8, 30} {
		if x := l.text(m, d); x != "" && x != txt {
			deeper = append(deeper, x)
		}
	}
	r.log.shape[txt] = deeper
}

func (l *lemmaT) text(m *TM, depth int) string {
	lev := map[*Term]int{}
	q := []*Term{l.res}
	lev[l.res] = 0
	for _, a := range l.args {
		if _, ok := lev[a]; !ok {
			lev[a] = 0
			q = append(q, a)
		}
	}
	for i := 0; i < len(q); i++ {
		t := q[i]
		if lev[t] >= depth || t.op == OUF || t.op == OTable {
			continue
		}
		for _, a := range t.args {
			if _, ok := lev[a]; !ok {
				lev[a] = lev[t] + 1
				q = append(q, a)
			}
		}
		if len(q) > 400 {
			return ""
		}
	}
	var decl, defs strings.Builder
	name := map[*Term]string{}
	n := 0
	cut := ""
	var ref func(t *Term) string
	ref = func(t *Term) string {
		if t.op == OConst {
			if t.w == 0 {
				return fmt.Sprint(t.k != 0)
			}
			return bvLit(t.w, t.bigVal())
		}
		if s, ok := name[t]; ok {
			return s
		}
		if lev[t] >= depth || t.op == OVar || t.op == OUF || t.op == OTable {
			if t.op != OVar {
				cut = "; cut\n"
			}
			n++
			s := fmt.Sprintf("v%d", n)
			name[t] = s
			fmt.Fprintf(&decl, "(declare-const %s %s)", s, sortName(t.w))
			return s
		}
		var as []string
		for _, a := range t.args {
			as = append(as, ref(a))
		}
		n++
		s := fmt.Sprintf("v%d", n)
		name[t] = s
		fmt.Fprintf(&defs, "(define-fun %s () %s %s)", s, sortName(t.w), smtApp(t.op, t.w, t.k, t.coefOf(), t.args, as))
		return s
	}
	var as []string
	for _, a := range l.args {
		as = append(as, ref(a))
	}
	raw := smtApp(l.op, l.w, l.k, l.coef, l.args, as)
	r := ref(l.res)
	return cut + decl.String() + defs.String() + fmt.Sprintf("(assert (not (= %s %s)))", raw, r)
}

func (t *Term) coefOf() *big.Int {
	if t.op == OMulC {
		return t.coef()
	}
	return nil
}

func smtApp(op Op, w int, k uint64, coef *big.Int, args []*Term, as []string) string {
	nary := func(o string) string { return "(" + o + " " + strings.Join(as, " ") + ")" }
	left := func(o string) string {
		s := as[0]
		for _, a := range as[1:] {
			s = "(" + o + " " + s + " " + a + ")"
		}
		return s
	}
	switch op {
	case OXor:
		return left("bvxor")
	case OAnd:
		return left("bvand")
	case OOr:
		return left("bvor")
	case OAdd:
		return left("bvadd")
	case OMulC:
		return fmt.Sprintf("(bvmul %s %s)", bvLit(w, coef), as[0])
	case OMul:
		return nary("bvmul")
	case OUDiv:
		return nary("bvudiv")
	case OURem:
		return nary("bvurem")
	case OSDiv:
		return nary("bvsdiv")
	case OSRem:
		return nary("bvsrem")
	case OShl:
		return nary("bvshl")
	case OLShr:
		return nary("bvlshr")
	case OAShr:
		return nary("bvashr")
	case OConcat:
		return left("concat")
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(k)+w-1, k, as[0])
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", w-args[0].w, as[0])
	case OIte:
		return nary("ite")
	case OEq:
		return nary("=")
	case OUlt:
		return nary("bvult")
	case OUle:
		return nary("bvule")
	case OSlt:
		return nary("bvslt")
	case OSle:
		return nary("bvsle")
	case OBAnd, OBOr:
		if len(as) == 1 {
			return as[0]
		}
		if op == OBAnd {
			return nary("and")
		}
		return nary("or")
	case OBNot:
		return nary("not")
	}
	panic("smtApp")
}

// LemmaStats is the outcome of the discharge.
type LemmaStats struct {
	Steps, Shapes, Proved, Unresolved int
	Refuted                           []string
	Time                              time.Duration
}

// Discharge proves the collected lemmas with the solver.
func (l *LemmaLog) Discharge(budget time.Duration, workers int) LemmaStats {
	var st LemmaStats
	st.Steps = int(l.Seen)
	st.Shapes = len(l.shape)
	type item struct {
		key  string
		txts []string
	}
	var items []item
	for k, d := range l.shape {
		items = append(items, item{k, append([]string{k}, d...)})
	}
	t0 := time.Now()
	procs := make([]*lemProc, workers)
	defer func() {
		for _, p := range procs {
			if p != nil {
				p.close()
			}
		}
	}()
	for round := 0; len(items) > 0 && time.Since(t0) < budget; round++ {
		sort.Slice(items, func(i, j int) bool {
			a, b := items[i].txts[0], items[j].txts[0]
			if len(a) != len(b) {
				return len(a) < len(b)
			}
			return a < b
		})
		ch := make(chan item, len(items))
		for _, it := range items {
			ch <- it
		}
		close(ch)
		var mu sync.Mutex
		var next []item
		var wg sync.WaitGroup
		for i := 0; i < workers; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for it := range ch {
					if time.Since(t0) > budget {
						mu.Lock()
						st.Unresolved++
						mu.Unlock()
						continue
					}
					if procs[i] == nil {
						procs[i] = newLemProc()
					}
					res := procs[i].ask(it.txts[0])
					if res == "dead" {
						procs[i].close()
						procs[i] = nil
					}
					mu.Lock()
					switch {
					case res == "unsat":
						st.Proved++
					case res == "sat" && !strings.HasPrefix(it.txts[0], "; cut"):
						st.Unresolved++
						st.Refuted = append(st.Refuted, it.txts[0])
					case len(it.txts) > 1 && res != "dead":
						next = append(next, item{it.key, it.txts[1:]})
					default:
						st.Unresolved++
					}
					mu.Unlock()
				}
			}(i)
		}
		wg.Wait()
		items = next
	}
	st.Unresolved += len(items)
	st.Time = time.Since(t0)
	return st
}

type lemProc struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
}

func newLemProc() *lemProc {
	p := &lemProc{cmd: exec.Command(z3Path(), "-in", "-smt2")}
	in, _ := p.cmd.StdinPipe()
	out, _ := p.cmd.StdoutPipe()
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	p.in, p.out = bufio.NewWriter(in), bufio.NewReader(out)
	fmt.Fprintf(p.in, "(set-option :timeout 1000)\n")
	return p
}

func (p *lemProc) ask(txt string) string {
	fmt.Fprintf(p.in, "(push)\n%s\n(check-sat)\n(pop)\n", txt)
	p.in.Flush()
	s, err := p.out.ReadString('\n')
	if err != nil {
		return "dead"
	}
	return strings.TrimSpace(s)
}

func (p *lemProc) close() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
}
