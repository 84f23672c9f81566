package main

import (
	"fmt"
	"strings"
)

var opNames = [...]string{"const", "var", "uf", "xor", "and", "or", "add", "mulc", "mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "concat", "extract", "sext", "ite", "table", "eq", "ult", "ule", "slt", "sle", "band", "bor", "bnot"}

func (t *Term) show(depth int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.k == 1)
		}
		return fmt.Sprintf("%s:%d", t.bigVal().Text(16), t.w)
	case OVar:
		return t.name
	}
	if depth == 0 {
		return fmt.Sprintf("#%d:%d", t.id, t.w)
	}
	var s []string
	for _, a := range t.args {
		s = append(s, a.show(depth-1))
	}
	x := ""
	switch t.op {
	case OExtract, OTable:
		x = fmt.Sprintf("[%d+%d]", t.k, t.w)
	case OMulC:
		x = "*" + t.coef().Text(16)
	case OUF:
		x = t.name
	}
	return opNames[t.op] + x + "(" + strings.Join(s, " ") + ")"
}

// firstDiffs prints where two terms first differ.
func firstDiffs(a, b *Term, seen map[[2]*Term]bool, n *int) {
	if a == b || *n <= 0 || seen[[2]*Term{a, b}] {
		return
	}
	seen[[2]*Term{a, b}] = true
	if a.op == b.op && a.w == b.w && a.k == b.k && len(a.args) == len(b.args) && len(a.args) > 0 {
		ma := map[*Term]bool{}
		for _, x := range a.args {
			ma[x] = true
		}
		mb := map[*Term]bool{}
		for _, x := range b.args {
			mb[x] = true
		}
		var da, db []*Term
		for _, x := range a.args {
			if !mb[x] {
				da = append(da, x)
			}
		}
		for _, x := range b.args {
			if !ma[x] {
				db = append(db, x)
			}
		}
		if len(da) == len(db) && len(da) > 0 && len(da) <= 4 {
			for i := range da {
				firstDiffs(da[i], db[i], seen, n)
			}
			return
		}
	}
	*n--
	fmt.Printf("DIFF\n  %s\n  %s\n", a.show(5), b.show(5))
}

func debugAssert(c *Term) {
	n := 3
	for _, t := range topo(c) {
		if t.op == OEq {
			firstDiffs(t.args[0], t.args[1], map[[2]*Term]bool{}, &n)
		}
	}
}
