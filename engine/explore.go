package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

const repoModule = "github.com/ZZMarquis/gm"

type Harness struct {
	Name string
	Fn   *ssa.Function
}

type Stats struct {
	Paths, Done, Infeasible, Bound, Unsupported, Panics, Engine, Assume      int
	Steps                                                                    int64
	Asserts, AssertsNF, AssertsSolver, Swept, Patched, SweptNodes, Undecided int
	Queries, SatN, UnsatN, UnknownN                                          int
	SolverTime                                                               time.Duration
	Unexplored                                                               int
	Reached                                                                  map[string]int
	Checked                                                                  int // completed paths with at least one assertion
}

type Sample struct {
	Harness string            `json:"harness"`
	Inputs  map[string]any    `json:"inputs"`
	Choices map[string]int    `json:"choices"`
	Obs     map[string]string `json:"observed,omitempty"`
	Forks   int               `json:"forks"`
	Asserts int               `json:"assertions"`
	Stubbed bool              `json:"-"`
}

type Explorer struct {
	P         *Prog
	MaxSteps  int64
	MaxViol   int
	NoMerge   bool
	Thorough  bool
	LeadZeros int
	Workers   int
	Seed      int64

	mu            sync.Mutex
	cond          *sync.Cond
	queue         []*Job
	branchHard    atomic.Int64 // size of the smallest of them
	branchUnknown atomic.Int64 // undecided feasibility checks in this harness
	active        int
	stop          bool
	viols         []*Violation
	notes         map[string]int
	stats         Stats
	perH          map[string]*Stats
	cur           *Harness
	deadline      time.Time
	funcs         map[string]int64
	samples       []Sample
	sampN         map[string]int
	worlds        []*World
	bounds        map[string]bool
	assumes       map[string]bool
	xorCap        int32
	lemmas        *LemmaLog
}

func NewExplorer(P *Prog) *Explorer {
	ex := &Explorer{P: P, MaxSteps: 60_000_000, MaxViol: 3, Workers: 8, notes: map[string]int{}, perH: map[string]*Stats{}, funcs: map[string]int64{}, sampN: map[string]int{}, bounds: map[string]bool{}, assumes: map[string]bool{}, xorCap: xorSmall, lemmas: &LemmaLog{shape: map[string][]string{}, max: 3000}}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) note(s string) {
	ex.mu.Lock()
	ex.notes[s]++
	ex.mu.Unlock()
}

func (ex *Explorer) count(f func(*Stats)) {
	ex.mu.Lock()
	f(&ex.stats)
	if ex.cur != nil {
		f(ex.perH[ex.cur.Name])
	}
	ex.mu.Unlock()
}

func (ex *Explorer) addViolation(v *Violation) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	n := 0
	for _, o := range ex.viols {
		if o.Harness == v.Harness && o.Msg == v.Msg {
			n++
		}
	}
	if n < 3 {
		ex.viols = append(ex.viols, v)
		// a little more time for further counterexamples
		if t := time.Now().Add(60 * time.Second); t.Before(ex.deadline) {
			ex.deadline = t
		}
	}
}

// assume records an assumption of the model for the evidence.
func (ex *Explorer) assume(s string) {
	ex.mu.Lock()
	ex.assumes[s] = true
	ex.mu.Unlock()
}

// enough: no further counterexamples are needed in this harness.
func (ex *Explorer) enough(h string) bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	exact, stub := 0, 0
	for _, v := range ex.viols {
		if !v.Stubbed {
			exact++
		} else if v.Harness == h {
			stub++
		}
	}
	return exact >= ex.MaxViol || stub >= 4*ex.MaxViol
}

func (ex *Explorer) violations() []*Violation {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	return ex.viols
}

func (ex *Explorer) RunHarness(h *Harness, deadline time.Time) {
	ex.mu.Lock()
	ex.cur = h
	ex.perH[h.Name] = &Stats{Reached: map[string]int{}}
	ex.queue = []*Job{{h: h}}
	ex.active = 0
	ex.branchUnknown.Store(0)
	ex.branchHard.Store(0)
	ex.stop = false
	ex.deadline = deadline
	hv := len(ex.viols)
	ex.mu.Unlock()
	for len(ex.worlds) < ex.Workers {
		ex.worlds = append(ex.worlds, nil)
	}
	var wg sync.WaitGroup
	for i := 0; i < ex.Workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for {
				ex.mu.Lock()
				for len(ex.queue) == 0 && ex.active > 0 && !ex.stop {
					ex.cond.Wait()
				}
				if ex.stop || len(ex.queue) == 0 {
					ex.mu.Unlock()
					ex.cond.Broadcast()
					return
				}
				j := ex.queue[len(ex.queue)-1]
				ex.queue = ex.queue[:len(ex.queue)-1]
				ex.active++
				ex.mu.Unlock()
				if ex.worlds[i] == nil {
					ex.worlds[i] = NewWorld(ex)
				}
				ex.runOne(ex.worlds[i], j)
				ex.mu.Lock()
				ex.active--
				nv := 0
				for _, v := range ex.viols[hv:] {
					_ = v
					nv++
				}
				if nv >= ex.MaxViol || time.Now().After(ex.deadline) {
					if len(ex.queue) > 0 && !ex.stop {
						ex.stats.Unexplored += len(ex.queue)
						ex.perH[h.Name].Unexplored += len(ex.queue)
						if nv < ex.MaxViol {
							ex.notes["time budget used up in "+h.Name]++
						}
					}
					ex.stop = true
				}
				ex.mu.Unlock()
				ex.cond.Broadcast()
			}
		}(i)
	}
	wg.Wait()
}

func (ex *Explorer) runOne(w *World, j *Job) {
	ex.mu.Lock()
	w.deadline = ex.deadline
	ex.mu.Unlock()
	q0, s0, u0, k0, t0 := w.s.Queries, w.s.SatN, w.s.UnsatN, w.s.UnknownN, w.s.Time
	kind, msg := w.runJob(j)
	var samp *Sample
	if kind == "done" && w.asserts > 0 {
		ex.mu.Lock()
		need := ex.sampN[j.h.Name] < 12
		if need {
			ex.sampN[j.h.Name]++
		}
		ex.mu.Unlock()
		if need {
			samp = w.sample()
		}
	}
	w.rollback()
	for _, e := range w.s.Errors {
		ex.note("solver error: " + e)
	}
	w.s.Errors = nil
	if w.trace {
		fmt.Fprintf(os.Stderr, "path %s %s %s steps=%d decs=%d\n", j.h.Name, kind, msg, w.steps, len(w.decs))
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if samp != nil {
		ex.samples = append(ex.samples, *samp)
	}
	for _, st := range []*Stats{&ex.stats, ex.perH[j.h.Name]} {
		st.Paths++
		st.Steps += w.steps
		st.Queries += w.s.Queries - q0
		st.SatN += w.s.SatN - s0
		st.UnsatN += w.s.UnsatN - u0
		st.UnknownN += w.s.UnknownN - k0
		st.SolverTime += w.s.Time - t0
		switch kind {
		case "done":
			st.Done++
			if w.asserts > 0 {
				st.Checked++
			}
			if st.Reached == nil {
				st.Reached = map[string]int{}
			}
			for r := range w.reached {
				st.Reached[r]++
			}
		case "infeasible", "assume":
			st.Infeasible++
		case "bound":
			st.Bound++
		case "unsupported":
			st.Unsupported++
		case "panic":
			st.Panics++
		case "engine":
			st.Engine++
		case "stop":
			st.Done++
		}
	}
	if kind == "bound" || kind == "unsupported" || kind == "engine" {
		ex.notes[j.h.Name+": "+kind+": "+msg]++
	}
	for n, c := range w.notes {
		ex.notes[j.h.Name+": "+n] += c
	}
	clear(w.notes)
	clear(w.reached)
	for f, c := range w.funcs {
		ex.funcs[f.f.String()] += c
	}
	clear(w.funcs)
	if !ex.stop {
		// sides that could not be decided come last
		var low []*Job
		for i := len(w.newJobs) - 1; i >= 0; i-- {
			if w.newJobs[i].low {
				low = append(low, w.newJobs[i])
			} else {
				ex.queue = append(ex.queue, w.newJobs[i])
			}
		}
		if len(low) > 0 {
			ex.queue = append(low, ex.queue...)
		}
	}
	w.newJobs = nil
}

func (w *World) sample() (s *Sample) {
	defer func() {
		if r := recover(); r != nil {
			s = nil
		}
	}()
	m := w.model
	if m == nil {
		r, mm := w.check(true)
		if r != Sat {
			return nil
		}
		m = mm
	} else {
		// the cached model satisfies the path condition
		w.m.gen++
		for _, c := range w.pc {
			if !w.m.EvalBool(c, m) {
				r, mm := w.check(true)
				if r != Sat {
					return nil
				}
				m = mm
				break
			}
		}
	}
	s = &Sample{Harness: w.job.h.Name, Forks: len(w.decs), Asserts: w.asserts, Stubbed: w.stubbed}
	s.Inputs, s.Choices = w.inputValues(m)
	s.Obs = map[string]string{}
	w.m.gen++
	for _, o := range w.observes {
		var sb strings.Builder
		for _, v := range o.v {
			var b *big.Int
			if v.P == nil {
				b = new(big.Int).SetUint64(v.N & mask(o.w))
				if o.w == 0 {
					b = new(big.Int).SetUint64(v.N)
				}
			} else {
				b = w.m.Eval(v.P.(*Term), m)
			}
			if o.w == 8 {
				fmt.Fprintf(&sb, "%02x", b)
			} else {
				sb.WriteString(b.String())
			}
		}
		s.Obs[o.name] = sb.String()
	}
	w.m.gen++
	return s
}

func harnessesFor(P *Prog, pkgPath, prefix string) []*Harness {
	var hs []*Harness
	for _, pkg := range P.prog.AllPackages() {
		if pkg.Pkg.Path() != pkgPath {
			continue
		}
		for n, m := range pkg.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, prefix+"_") {
				hs = append(hs, &Harness{Name: n, Fn: f})
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	return hs
}

// lemmaRec decides whether the rewriting steps of the next path are recorded.
func (ex *Explorer) lemmaRec(h string) *lemmaRec {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	n := ex.perH[h].Paths
	if n > 8 && n%97 != 0 {
		return nil
	}
	return &lemmaRec{log: ex.lemmas, left: 3000}
}
