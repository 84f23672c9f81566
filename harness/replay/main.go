// Command replay runs harnesses natively on concrete cases: the confirmation step of every
// counterexample and the cross-check of sampled path models.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"time"

	"gmharness/h"
	"gmharness/sym"
)

func run(c *sym.Case) (r *sym.Result) {
	f := h.Registry[c.Harness]
	if f == nil {
		return &sym.Result{Outcome: "unknown harness"}
	}
	sym.Begin(c)
	defer func() {
		r = sym.End()
		if p := recover(); p != nil {
			if s, ok := p.(sym.Stopped); ok {
				if len(r.Failures) > 0 {
					r.Outcome = "fail"
				} else {
					r.Outcome = s.Why
				}
				return
			}
			r.Outcome, r.Panic = "panic", fmt.Sprint(p)
			return
		}
		if len(r.Failures) > 0 {
			r.Outcome = "fail"
		} else {
			r.Outcome = "ok"
		}
	}()
	f()
	return
}

// search runs the harness on concrete inputs near the model (same choices) until it fails: values the
// model gives to abstracted functions need not be the real ones. Small curves make coincidences frequent.
func search(c *sym.Case, secs float64, seed int64) *sym.Result {
	end := time.Now().Add(time.Duration(secs * float64(time.Second)))
	r := rand.New(rand.NewSource(seed))
	keeps := []float64{0, 0.5, 0.9}
	n := 0
	for time.Now().Before(end) {
		cc := *c
		if n == 0 {
			sym.Vary(nil, 0)
		} else {
			cc.Curve = n % 4
			sym.Vary(r, keeps[r.Intn(3)])
		}
		n++
		done := make(chan *sym.Result, 1)
		go func() { done <- run(&cc) }()
		var res *sym.Result
		select {
		case res = <-done:
		case <-time.After(15 * time.Second):
			res = &sym.Result{Outcome: "timeout"}
		}
		if res.Outcome == "fail" || res.Outcome == "panic" && cc.Curve == 0 || res.Outcome == "timeout" {
			u := sym.Used()
			res.Inputs, res.Choices, res.Curve = u.Inputs, u.Choices, u.Curve
			return res
		}
	}
	return &sym.Result{Outcome: fmt.Sprintf("not reproduced in %d native runs", n)}
}

func main() {
	var cases []*sym.Case
	secs := 0.0
	if len(os.Args) > 3 && os.Args[2] == "-search" {
		secs, _ = strconv.ParseFloat(os.Args[3], 64)
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := json.Unmarshal(b, &cases); err != nil {
		var one sym.Case
		if json.Unmarshal(b, &one) != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		cases = []*sym.Case{&one}
	}
	enc := json.NewEncoder(os.Stdout)
	for i, c := range cases {
		if secs > 0 {
			enc.Encode(search(c, secs, int64(i+1)))
			continue
		}
		done := make(chan *sym.Result, 1)
		go func() { done <- run(c) }()
		select {
		case r := <-done:
			enc.Encode(r)
		case <-time.After(20 * time.Second):
			enc.Encode(&sym.Result{Outcome: "timeout"})
			return
		}
	}
}
