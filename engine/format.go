package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
)

// Formatting: the parts of fmt that yield data rather than messages. What is
// not modelled here becomes an opaque constant, as error messages always are.

type fmtFlags struct {
	zero, minus, plus, sharp, space bool
	width                           int
}

func (w *World) sprintf(f string, args []Val) ([]Val, bool) {
	var out []Val
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, Val{N: uint64(f[i])})
			continue
		}
		var fl fmtFlags
		i++
	flags:
		for ; i < len(f); i++ {
			switch f[i] {
			case '0':
				fl.zero = true
			case '-':
				fl.minus = true
			case '+':
				fl.plus = true
			case '#':
				fl.sharp = true
			case ' ':
				fl.space = true
			default:
				break flags
			}
		}
		for ; i < len(f) && f[i] >= '0' && f[i] <= '9'; i++ {
			fl.width = fl.width*10 + int(f[i]-'0')
		}
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			out = append(out, Val{N: '%'})
			continue
		}
		if n >= len(args) {
			return nil, false
		}
		b, ok := w.fmtArg(f[i], fl, args[n])
		n++
		if !ok {
			return nil, false
		}
		out = append(out, b...)
	}
	return out, n == len(args)
}

func lit(s string) []Val { return strBytes(strV(s)) }

func (w *World) callMethod(t types.Type, v Val, name string) ([]Val, bool) {
	sel := types.NewMethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil, false
	}
	sig := sel.Type().(*types.Signature)
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), types.Typ[types.String]) {
		return nil, false
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	return strBytes(w.call(w.ex.P.method(t, sel.Obj().(*types.Func)), []Val{v}, nil, nil)), true
}

func (w *World) hexByte(v Val, upper bool) []Val {
	al := uint64('a' - 10)
	if upper {
		al = 'A' - 10
	}
	m := w.m
	t := w.term(v, 8)
	nib := func(n *Term) Val {
		x := m.ZExt(n, 8)
		return w.fromTerm(m.Ite(m.Ult(x, m.C(8, 10)), m.Add(x, m.C(8, '0')), m.Add(x, m.C(8, al))), scalar{8, false, true, false})
	}
	return []Val{nib(m.Extract(t, 4, 4)), nib(m.Extract(t, 0, 4))}
}

func (w *World) fmtArg(verb byte, fl fmtFlags, v Val) ([]Val, bool) {
	i, ok := v.P.(*Iface)
	if !ok || i == nil {
		if verb == 'v' && fl.width == 0 {
			return lit("<nil>"), true
		}
		return nil, false
	}
	if fl.sharp || fl.minus || fl.space || fl.plus {
		return nil, false
	}
	if types.NewMethodSet(i.t).Lookup(nil, "Format") != nil { // *big.Int
		if p, ok := i.t.(*types.Pointer); ok && p.Elem().String() == "math/big.Int" && fl.width == 0 && i.v.P != nil {
			x := w.bigGet(i.v)
			base := map[byte]int{'v': 10, 's': 10, 'd': 10, 'x': 16}[verb]
			if base != 0 {
				return lit(w.bigConst(x, "Format").Text(base)), true
			}
		}
		return nil, false
	}
	if verb == 'v' || verb == 's' {
		for _, n := range []string{"Error", "String"} {
			if b, ok := w.callMethod(i.t, i.v, n); ok {
				return pad(b, fl), true
			}
		}
	}
	switch u := i.t.Underlying().(type) {
	case *types.Slice:
		if e, ok := u.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 {
			var b []Val
			if s, ok := i.v.P.(*Slice); ok {
				b = s.e
			}
			switch verb {
			case 's':
				return pad(b, fl), true
			case 'x', 'X':
				var o []Val
				for _, c := range b {
					o = append(o, w.hexByte(c, verb == 'X')...)
				}
				return pad(o, fl), true
			}
		}
		return nil, false
	case *types.Basic:
		if isStringT(i.t) {
			b := strBytes(i.v)
			switch verb {
			case 's', 'v':
				return pad(b, fl), true
			case 'x', 'X':
				var o []Val
				for _, c := range b {
					o = append(o, w.hexByte(c, verb == 'X')...)
				}
				return pad(o, fl), true
			case 'q':
				if s, ok := goStr(i.v); ok {
					return pad(lit(strconv.Quote(s)), fl), true
				}
			}
			return nil, false
		}
		sc := scalarOf(i.t)
		if !sc.ok || sc.float {
			return nil, false
		}
		if sc.w == 0 {
			if verb != 'v' && verb != 't' {
				return nil, false
			}
			return pad(lit(fmt.Sprint(w.branch(w.bterm(i.v)))), fl), true
		}
		if sc.w == 8 && (verb == 'x' || verb == 'X') && fl.zero && fl.width == 2 && !sc.signed {
			return w.hexByte(i.v, verb == 'X'), true
		}
		if i.v.P != nil && sc.w > 8 {
			return nil, false
		}
		n := new(big.Int).SetUint64(w.conc(i.v, sc.w))
		if sc.signed {
			n.SetInt64(signed(n.Uint64(), sc.w))
		}
		base := map[byte]int{'v': 10, 'd': 10, 'x': 16, 'X': 16, 'o': 8, 'b': 2}[verb]
		if base == 0 {
			return nil, false
		}
		s := n.Text(base)
		if verb == 'X' {
			s = fmt.Sprintf("%X", n)
		}
		if fl.zero && len(s) < fl.width {
			if n.Sign() < 0 {
				return nil, false
			}
			for len(s) < fl.width {
				s = "0" + s
			}
		}
		return pad(lit(s), fl), true
	}
	return nil, false
}

// pad pads with blanks on the left (ASCII contents; flags other than the width are refused earlier).
func pad(b []Val, fl fmtFlags) []Val {
	for len(b) < fl.width {
		b = append(lit(" "), b...)
	}
	return b
}

func (w *World) sprint(args []Val, ln bool) ([]Val, bool) {
	var out []Val
	str := func(v Val) bool {
		i, ok := v.P.(*Iface)
		return ok && i != nil && isStringT(i.t)
	}
	for n, a := range args {
		if n > 0 && (ln || !str(a) && !str(args[n-1])) {
			out = append(out, lit(" ")...)
		}
		b, ok := w.fmtArg('v', fmtFlags{}, a)
		if !ok {
			return nil, false
		}
		out = append(out, b...)
	}
	if ln {
		out = append(out, lit("\n")...)
	}
	return out, true
}
