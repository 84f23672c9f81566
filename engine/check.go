package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Check runs every harness of one property and writes the evidence.
type Check struct {
	ID, Tier, Only, Dir, Evidence string
	Workers, Budget               int
	NoMerge                       bool
	t0                            time.Time
}

type nativeResult struct {
	Outcome  string            `json:"outcome"`
	Failures []string          `json:"failures"`
	Panic    string            `json:"panic"`
	Obs      map[string]string `json:"observed"`
	Asserts  int               `json:"asserts"`
	Missing  []string          `json:"missing"`
	Inputs   map[string]any    `json:"inputs,omitempty"`
	Choices  map[string]int    `json:"choices,omitempty"`
	Curve    int               `json:"curve,omitempty"`
}

type nativeCase struct {
	Harness string            `json:"harness"`
	Inputs  map[string]any    `json:"inputs"`
	Choices map[string]int    `json:"choices"`
	Obs     map[string]string `json:"observed,omitempty"`
	Thor    bool              `json:"thorough,omitempty"`
	Curve   int               `json:"curve,omitempty"`
	Message string            `json:"message,omitempty"`
	Prop    string            `json:"property,omitempty"`
	Native  *nativeResult     `json:"native_result,omitempty"`
}

func goEnv() []string {
	return append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
}

// replayBin builds the native replay program from the current tree.
func (c *Check) replayBin(tmp string) (string, error) {
	bin := filepath.Join(tmp, "replay")
	cmd := exec.Command("go", "build", "-o", bin, "./replay")
	cmd.Dir = c.Dir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the replay program: %v\n%s", err, out)
	}
	return bin, nil
}

// runNative runs cases natively; a case that kills or hangs the process gets its own outcome.
func (c *Check) runNative(bin, tmp string, cases []nativeCase) []*nativeResult {
	res := make([]*nativeResult, len(cases))
	i := 0
	for i < len(cases) {
		f := filepath.Join(tmp, "cases.json")
		b, _ := json.Marshal(cases[i:])
		os.WriteFile(f, b, 0o644)
		cmd := exec.Command("timeout", "-k", "5", "120", bin, f)
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB", "GOTRACEBACK=none")
		var out bytes.Buffer
		cmd.Stdout = &out
		cmd.Run()
		sc := bufio.NewScanner(&out)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		n := 0
		hang := false
		for sc.Scan() {
			var r nativeResult
			if json.Unmarshal(sc.Bytes(), &r) == nil && i+n < len(cases) {
				res[i+n] = &r
				hang = r.Outcome == "timeout"
				n++
			}
		}
		i += n
		if i < len(cases) && !hang {
			res[i] = &nativeResult{Outcome: "crash"}
			i++
		}
	}
	return res
}

// searchNative looks for a concrete failing input near counterexamples that depend on abstracted
// functions (hash, curve arithmetic) and so cannot be replayed as they are.
func (c *Check) searchNative(bin, tmp string, vs []*Violation, cases []nativeCase, res []*nativeResult) {
	var wg sync.WaitGroup
	slots := make(chan bool, 6)
	for i, v := range vs {
		if !v.Stubbed || v.EngineOK || res[i].Outcome == "fail" || res[i].Outcome == "panic" || res[i].Outcome == "crash" || res[i].Outcome == "timeout" {
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			f := filepath.Join(tmp, fmt.Sprintf("search%d.json", i))
			b, _ := json.Marshal(cases[i : i+1])
			os.WriteFile(f, b, 0o644)
			cmd := exec.Command("timeout", "-k", "5", "60", bin, f, "-search", fmt.Sprint(c.SearchSecs()))
			cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB", "GOTRACEBACK=none")
			out, _ := cmd.Output()
			var r nativeResult
			if json.Unmarshal(bytes.TrimSpace(out), &r) != nil {
				return
			}
			if r.Outcome == "fail" || r.Outcome == "panic" || r.Outcome == "timeout" {
				cases[i].Inputs, cases[i].Choices, cases[i].Curve = r.Inputs, r.Choices, r.Curve
				r.Inputs, r.Choices = nil, nil
			}
			res[i] = &r
		}(i)
	}
	wg.Wait()
}

func (c *Check) SearchSecs() float64 {
	if c.Tier == "thorough" {
		return 40
	}
	return 12
}

type finding struct{ harness, msg, text string }

func (c *Check) knownFindings() []finding {
	var fs []finding
	b, err := os.ReadFile("/verif/KNOWN_FINDINGS.txt")
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=Cxx harness=H msg="..." text
		if !strings.HasPrefix(l, "finding: property="+c.ID+" ") {
			continue
		}
		var f finding
		rest := l[len("finding: property="+c.ID+" "):]
		if strings.HasPrefix(rest, "harness=") {
			rest = rest[8:]
			k := strings.IndexByte(rest, ' ')
			f.harness, rest = rest[:k], rest[k+1:]
		}
		if strings.HasPrefix(rest, "msg=") {
			if q, err := strconv.QuotedPrefix(rest[4:]); err == nil {
				f.msg, _ = strconv.Unquote(q)
				rest = strings.TrimSpace(rest[4+len(q):])
			}
		}
		f.text = rest
		fs = append(fs, f)
	}
	return fs
}

func (c *Check) Run() int {
	thorough := c.Tier == "thorough"
	if c.Budget == 0 {
		c.Budget = 400
		if thorough {
			c.Budget = 780
		}
	}
	end := c.t0.Add(time.Duration(c.Budget) * time.Second)
	tmp, err := os.MkdirTemp("", "gmsym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	type br struct {
		bin string
		err error
	}
	bch := make(chan br, 1)
	go func() {
		b, e := c.replayBin(tmp)
		bch <- br{b, e}
	}()
	P, err := load(c.Dir, "./h")
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	hs := harnessesFor(P, "gmharness/h", c.ID)
	if c.Only != "" {
		var k []*Harness
		for _, h := range hs {
			if strings.Contains(h.Name, c.Only) {
				k = append(k, h)
			}
		}
		hs = k
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", c.ID)
		return 2
	}
	loadT := time.Since(c.t0)
	ex := NewExplorer(P)
	ex.Thorough = thorough
	ex.LeadZeros = 1
	if thorough {
		ex.LeadZeros = 2
	}
	ex.NoMerge = c.NoMerge
	ex.Workers = c.Workers
	ex.Seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		ex.Seed = s
	}
	for i, h := range hs {
		left := time.Until(end)
		share := left / time.Duration(len(hs)-i) * 2
		if share > left {
			share = left
		}
		ts := time.Now()
		ex.RunHarness(h, time.Now().Add(share))
		st := ex.perH[h.Name]
		fmt.Printf("harness %s: paths=%d checked=%d infeasible=%d bound=%d unsupported=%d engine=%d asserts=%d (normal-form %d, solver %d, undecided %d) steps=%d queries=%d patched=%d solver=%.1fs wall=%.1fs\n",
			h.Name, st.Paths, st.Checked, st.Infeasible, st.Bound, st.Unsupported, st.Engine, st.Asserts, st.AssertsNF, st.AssertsSolver, st.Undecided, st.Steps, st.Queries, st.Patched, st.SolverTime.Seconds(), time.Since(ts).Seconds())
	}
	for _, w := range ex.worlds {
		if w != nil {
			w.s.Close()
			if w.s2 != nil {
				w.s2.Close()
			}
		}
	}
	if thorough {
		ex.lemmas.max = 1 << 30
	}
	lb := 8 * time.Second
	if thorough {
		lb = 60 * time.Second
	}
	lst := ex.lemmas.Discharge(lb, ex.Workers)
	fmt.Printf("rewriting steps: recorded=%d distinct=%d proved=%d unresolved=%d refuted=%d solver-wall=%.1fs\n", lst.Steps, lst.Shapes, lst.Proved, lst.Unresolved-len(lst.Refuted), len(lst.Refuted), lst.Time.Seconds())
	for _, r := range lst.Refuted {
		ex.notes["REFUTED REWRITING STEP (engine defect)"]++
		if os.Getenv("GMSYM_DEBUG") != "" {
			fmt.Println("refuted:", r)
		}
	}
	b := <-bch
	if b.err != nil {
		fmt.Fprintln(os.Stderr, b.err)
		return 2
	}
	// ---- confirmation of counterexamples on the compiled code ----
	type conf struct {
		v *Violation
		r *nativeResult
		c nativeCase
	}
	var confirmed, unconfirmed []conf
	var cases []nativeCase
	for _, v := range ex.viols {
		cases = append(cases, nativeCase{Harness: v.Harness, Inputs: v.Inputs, Choices: v.Choices, Thor: thorough, Message: v.Msg, Prop: c.ID})
	}
	res := c.runNative(b.bin, tmp, cases)
	c.searchNative(b.bin, tmp, ex.viols, cases, res)
	for i, v := range ex.viols {
		r := res[i]
		ok := false
		switch {
		case strings.HasPrefix(v.Msg, "does not terminate"):
			ok = r.Outcome == "timeout"
		case r.Outcome == "fail" || r.Outcome == "panic" || r.Outcome == "crash" || r.Outcome == "timeout":
			ok = true
		case v.EngineOK:
			ok = true
		}
		cases[i].Native = r
		k := conf{v, r, cases[i]}
		if ok {
			confirmed = append(confirmed, k)
		} else {
			unconfirmed = append(unconfirmed, k)
			if os.Getenv("GMSYM_DEBUG") != "" {
				b, _ := json.MarshalIndent(cases[i], "", " ")
				fmt.Println("unconfirmed:", string(b))
			}
		}
	}
	// ---- cross-check of sampled path models ----
	var sc []nativeCase
	var si []int
	for i, s := range ex.samples {
		if s.Stubbed {
			continue
		}
		sc = append(sc, nativeCase{Harness: s.Harness, Inputs: s.Inputs, Choices: s.Choices, Thor: thorough, Prop: c.ID, Message: "path model"})
		si = append(si, i)
	}
	validated, mismatched := 0, 0
	for k, r := range c.runNative(b.bin, tmp, sc) {
		s := ex.samples[si[k]]
		switch r.Outcome {
		case "ok":
			same := true
			for n, v := range s.Obs {
				if r.Obs[n] != v {
					same = false
					ex.notes["encoding and compiled code disagree on "+n+" in "+s.Harness]++
					if os.Getenv("GMSYM_DEBUG") != "" {
						fmt.Println("mismatch", s.Harness, n, v, r.Obs[n], s.Inputs, s.Choices)
					}
				}
			}
			if same {
				validated++
			} else {
				mismatched++
			}
		case "fail", "panic", "crash":
			// the compiled code breaks the property on a concrete input
			sc[k].Native = r
			sc[k].Message = strings.Join(append(r.Failures, r.Panic), "; ")
			confirmed = append(confirmed, conf{&Violation{Harness: s.Harness, Msg: sc[k].Message, Inputs: s.Inputs, Choices: s.Choices}, r, sc[k]})
		default:
			ex.notes["path model outcome "+r.Outcome+" natively in "+s.Harness]++
			mismatched++
		}
	}
	// ---- verdict ----
	known := c.knownFindings()
	code := 0
	nviol := 0
	printed := map[string]bool{}
	for _, k := range confirmed {
		sup := false
		for _, f := range known {
			if (f.harness == "" || f.harness == k.v.Harness) && f.msg == k.v.Msg {
				sup = true
				if !printed[f.text] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, f.text)
					printed[f.text] = true
				}
			}
		}
		if sup {
			continue
		}
		nviol++
		dir := "/verif/evidence/replay"
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.ID, nviol))
		j, _ := json.MarshalIndent(k.c, "", " ")
		os.WriteFile(path, j, 0o644)
		fmt.Printf("violated: harness=%s: %s (native: %s %s %s)\n", k.v.Harness, k.v.Msg, k.r.Outcome, strings.Join(k.r.Failures, "; "), k.r.Panic)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		code = 1
	}
	for _, k := range unconfirmed {
		if os.Getenv("GMSYM_CEX") != "" {
			fmt.Printf("unconfirmed: %s %q choices=%v inputs=%v native=%s %v\n", k.v.Harness, k.v.Msg, k.v.Choices, k.v.Inputs, k.r.Outcome, k.r.Panic)
		}
		ex.notes[fmt.Sprintf("counterexample not reproduced by the compiled code (%s: %s): not reported", k.v.Harness, k.v.Msg)]++
	}
	// ---- vacuity ----
	for _, h := range hs {
		st := ex.perH[h.Name]
		if st.Checked == 0 && code == 0 && len(unconfirmed) == 0 {
			ex.notes["VACUOUS: no completed path with an assertion in "+h.Name]++
		}
	}
	var notes []string
	for _, n := range sortedKeys(ex.notes) {
		notes = append(notes, fmt.Sprintf("%s (x%d)", n, ex.notes[n]))
		fmt.Println("note:", notes[len(notes)-1])
	}
	// ---- evidence ----
	st := ex.stats
	var fns []string
	for f := range ex.funcs {
		if strings.Contains(f, repoModule) {
			fns = append(fns, strings.ReplaceAll(f, repoModule+"/", ""))
		}
	}
	sort.Strings(fns)
	perH := map[string]any{}
	for n, s := range ex.perH {
		perH[n] = map[string]any{"paths": s.Paths, "completed_with_assertions": s.Checked, "infeasible_or_outside_assumptions": s.Infeasible, "cut_by_bound": s.Bound, "not_encodable": s.Unsupported + s.Engine, "assertions": s.Asserts, "decided_by_normal_form": s.AssertsNF, "decided_by_solver": s.AssertsSolver, "swept": s.Swept, "undecided": s.Undecided, "reached": s.Reached, "unexplored": s.Unexplored}
	}
	var bounds []string
	for _, k := range sortedKeys(ex.bounds) {
		bounds = append(bounds, k)
	}
	samples := []any{}
	for i, s := range ex.samples {
		if i < 6 {
			samples = append(samples, s)
		}
	}
	var assumes []string
	for _, k := range sortedKeys(ex.assumes) {
		assumes = append(assumes, k)
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": ex.Seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": st.Paths, "transitions": st.Steps, "traces_validated_against_impl": validated, "traces_mismatching": mismatched,
			"samples": samples, "functions_encoded": fns, "functions_encoded_count": len(fns),
			"bounds": bounds, "harnesses": perH,
			"assertions": st.Asserts, "assertions_decided_by_normal_form": st.AssertsNF, "assertions_decided_by_solver": st.AssertsSolver, "assertions_undecided": st.Undecided,
			"queries": st.Queries, "queries_sat": st.SatN, "queries_unsat": st.UnsatN, "queries_unknown": st.UnknownN, "solver_s": round3(st.SolverTime.Seconds()),
			"rewriting_steps_recorded": lst.Steps, "rewriting_lemmas_distinct": lst.Shapes, "rewriting_lemmas_proved_by_solver": lst.Proved, "rewriting_lemmas_unresolved": lst.Unresolved, "rewriting_solver_wall_s": round3(lst.Time.Seconds()),
			"reduced_bound_notes": notes, "counterexamples_not_reproduced": len(unconfirmed), "load_s": round3(loadT.Seconds()),
			"explanation": "states are explored symbolic paths of the current source's SSA, transitions are executed SSA instructions; every assertion is decided for all values of the symbolic inputs of its path (by term normalisation or by z3); traces_validated_against_impl are solver models of explored paths replayed on the compiled code with all observed values equal",
		},
		"assumptions": assumes,
		"wall_s":      round3(time.Since(c.t0).Seconds()), "violations": nviol,
	}
	if c.Evidence != "" {
		os.MkdirAll(filepath.Dir(c.Evidence), 0o755)
		j, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(c.Evidence, append(j, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: paths=%d asserts=%d undecided=%d validated=%d mismatched=%d violations=%d wall=%.1fs\n", c.ID, c.Tier, st.Paths, st.Asserts, st.Undecided, validated, mismatched, nviol, time.Since(c.t0).Seconds())
	return code
}

func round3(f float64) float64 { return float64(int64(f*1000)) / 1000 }
