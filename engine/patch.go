package main

import "math/big"

// patch looks for a model of the path condition and c close to the current model, by changing the
// variables c depends on most directly. The result is verified by evaluation; nil means nothing found.
func (w *World) patch(c *Term) *Model {
	if w.model == nil {
		return nil
	}
	for alt := 0; alt < 3; alt++ {
		p := &patcher{w: w, set: map[string]*big.Int{}, alt: alt}
		if !p.make(c, true, 0) || len(p.set) == 0 && len(p.ufs) == 0 {
			continue
		}
		m := w.model.clone()
		for k, v := range p.set {
			m.vars[k] = v
		}
		for _, u := range p.ufs {
			if m.uf[u.name] == nil {
				m.uf[u.name] = map[string]*big.Int{}
			}
			m.uf[u.name][u.key] = u.v
		}
		w.m.gen++
		ok := w.m.EvalBool(c, m)
		for i := len(w.pc) - 1; ok && i >= 0; i-- {
			ok = w.m.EvalBool(w.pc[i], m)
		}
		w.m.gen++
		if ok {
			w.ex.count(func(s *Stats) { s.Patched++ })
			return m
		}
	}
	return nil
}

type ufSet struct {
	name, key string
	v         *big.Int
}

type patcher struct {
	w   *World
	set map[string]*big.Int
	ufs []ufSet
	alt int
}

func (p *patcher) val(t *Term) *big.Int {
	if t.op == OVar {
		if v, ok := p.set[t.name]; ok {
			return v
		}
	}
	return new(big.Int).Set(p.w.m.Eval(t, p.w.model))
}

// make arranges the truth value of c.
func (p *patcher) make(c *Term, want bool, depth int) bool {
	if depth > 12 {
		return false
	}
	if c.op == OConst {
		return (c.k != 0) == want
	}
	if p.w.m.EvalBool(c, p.w.model) == want {
		return true
	}
	switch c.op {
	case OBNot:
		return p.make(c.args[0], !want, depth+1)
	case OBAnd, OBOr:
		all := (c.op == OBAnd) == want
		n := 0
		for i := range c.args {
			a := c.args[(i+p.alt)%len(c.args)]
			ok := p.make(a, want, depth+1)
			if all && !ok {
				return false
			}
			if !all && ok {
				return true
			}
			n++
		}
		return all
	case OEq:
		a, b := c.args[0], c.args[1]
		if a.op == OConst || p.alt == 1 && b.op != OConst {
			a, b = b, a
		}
		if a.w == 0 {
			return p.make(a, p.w.m.EvalBool(b, p.w.model) == want, depth+1)
		}
		v := p.val(b)
		if !want {
			x := p.val(a)
			v = new(big.Int).Xor(x, big.NewInt(1))
			if p.alt == 2 {
				v.Xor(x, bigMask(a.w))
			}
		}
		return p.assign(a, v, depth+1) || p.assign(b, p.val(a), depth+1)
	case OUlt, OUle:
		a, b := c.args[0], c.args[1]
		if !want { // b <= a or b < a
			a, b = b, a
		}
		strict := (c.op == OUlt) == want
		va, vb := p.val(a), p.val(b)
		if a.op != OConst {
			v := new(big.Int).Set(vb)
			if p.alt == 1 {
				v.Rsh(v, 1)
			}
			if p.alt == 2 {
				v.SetInt64(0)
			}
			if strict && p.alt == 0 {
				v.Sub(v, bigOne)
			}
			if v.Sign() >= 0 && p.assign(a, v, depth+1) {
				return true
			}
		}
		if b.op != OConst {
			v := new(big.Int).Set(va)
			if strict {
				v.Add(v, bigOne)
			}
			if p.alt > 0 {
				v = bigMask(b.w)
			}
			return v.BitLen() <= b.w && p.assign(b, v, depth+1)
		}
	}
	return false
}

// assign arranges the value of the bit-vector t.
func (p *patcher) assign(t *Term, v *big.Int, depth int) bool {
	if depth > 12 {
		return false
	}
	v = new(big.Int).And(v, bigMask(t.w))
	if t.op == OConst {
		return t.bigVal().Cmp(v) == 0
	}
	switch t.op {
	case OVar:
		p.set[t.name] = v
		return true
	case OUF:
		key := ""
		for _, a := range t.args {
			key += p.val(a).Text(62) + ","
		}
		p.ufs = append(p.ufs, ufSet{t.name, key, v})
		return true
	case OExtract:
		x := t.args[0]
		o := p.val(x)
		lo := int(t.k)
		m := new(big.Int).Lsh(bigMask(t.w), uint(lo))
		o = new(big.Int).Or(new(big.Int).AndNot(o, m), new(big.Int).Lsh(v, uint(lo)))
		return p.assign(x, o, depth+1)
	case OConcat:
		sh := 0
		for i := len(t.args) - 1; i >= 0; i-- {
			a := t.args[i]
			if !p.assign(a, new(big.Int).Rsh(v, uint(sh)), depth+1) {
				return false
			}
			sh += a.w
		}
		return true
	case OXor:
		for i, a := range t.args {
			if a.op == OConst {
				continue
			}
			r := new(big.Int).Set(v)
			for j, b := range t.args {
				if j != i {
					r.Xor(r, p.val(b))
				}
			}
			if p.assign(a, r, depth+1) {
				return true
			}
		}
	case OAdd:
		for i, a := range t.args {
			if a.op == OConst || a.op == OMulC {
				continue
			}
			r := new(big.Int).Set(v)
			for j, b := range t.args {
				if j != i {
					r.Sub(r, p.val(b))
				}
			}
			return p.assign(a, r, depth+1)
		}
	}
	return false
}
