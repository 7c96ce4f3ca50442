package main

import (
	"math/big"
	"math/bits"
)

// Integer linear forms: a bit-vector sum whose value is known not to wrap around
// can be divided by a constant term by term.

type linEnt struct {
	coef *big.Int
	atom *Term
}

// linear writes the unsigned value of t exactly as sum(coef*atom) + k with
// non-negative coefficients.
func (c *Ctx) linear(t *Term) (es []linEnt, k *big.Int) {
	k = new(big.Int)
	switch {
	case t.w > 64:
		return []linEnt{{bigOne, t}}, k
	case t.isConst():
		return nil, t.big()
	case t.op == OpConcat:
		off := t.w
		for _, p := range t.args {
			off -= p.w
			s := new(big.Int).Lsh(bigOne, uint(off))
			pe, pk := c.linear(p)
			for _, x := range pe {
				es = append(es, linEnt{new(big.Int).Mul(x.coef, s), x.atom})
			}
			k.Add(k, pk.Mul(pk, s))
		}
		return es, k
	case t.op == OpAdd || t.op == OpMul && t.args[0].isConst():
		args := t.args
		if t.op == OpMul {
			args = []*Term{t}
		}
		for _, a := range args {
			m := bigOne
			if a.op == OpMul && a.args[0].isConst() {
				m, a = a.args[0].big(), a.args[1]
			}
			ae, ak := c.linear(a)
			for _, x := range ae {
				es = append(es, linEnt{new(big.Int).Mul(x.coef, m), x.atom})
			}
			k.Add(k, new(big.Int).Mul(ak, m))
		}
		hi := linMax(es, k)
		if hi.BitLen() <= t.w {
			return es, k
		}
		return []linEnt{{bigOne, t}}, new(big.Int)
	}
	return []linEnt{{bigOne, t}}, k
}

func linMax(es []linEnt, k *big.Int) *big.Int {
	hi := new(big.Int).Set(k)
	for _, x := range es {
		m := new(big.Int).SetUint64(x.atom.umax)
		hi.Add(hi, m.Mul(m, x.coef))
	}
	return hi
}

func (c *Ctx) fromLinear(es []linEnt, k *big.Int, w int) *Term {
	ts := []*Term{c.BVBig(w, k)}
	for _, x := range es {
		if x.coef.Sign() != 0 {
			ts = append(ts, c.Mul(c.BVBig(w, x.coef), c.Zext(x.atom, w)))
		}
	}
	return c.Add(ts...)
}

// divConst splits a = d*q + r with 0 <= r < d, if that can be seen term by term.
func (c *Ctx) divConst(a *Term, d *big.Int) (q, r *Term, ok bool) {
	if a.w > 64 || a.op != OpAdd && a.op != OpMul && a.op != OpConcat {
		return nil, nil, false
	}
	es, k := c.linear(a)
	if len(es) == 1 && es[0].atom == a {
		return nil, nil, false
	}
	var qs, rs []linEnt
	for _, x := range es {
		qc, rc := new(big.Int).DivMod(x.coef, d, new(big.Int))
		qs = append(qs, linEnt{qc, x.atom})
		rs = append(rs, linEnt{rc, x.atom})
	}
	qk, rk := new(big.Int).DivMod(k, d, new(big.Int))
	if linMax(rs, rk).Cmp(d) >= 0 {
		return nil, nil, false
	}
	return c.fromLinear(qs, qk, a.w), c.fromLinear(rs, rk, a.w), true
}

// narrow is t cut to the bits its range needs.
func (c *Ctx) narrow(t *Term) *Term {
	w := bits.Len64(t.umax)
	if t.w > 64 || w == 0 || w >= t.w {
		return t
	}
	if es, k := c.linear(t); len(es) > 0 {
		ts := []*Term{c.BVBig(w, new(big.Int).And(k, new(big.Int).SetUint64(maskOf(w))))}
		for _, x := range es {
			a := x.atom
			if a.w > w {
				a = c.Extract(w-1, 0, a)
			} else {
				a = c.Zext(a, w)
			}
			ts = append(ts, c.Mul(c.BVBig(w, new(big.Int).And(x.coef, new(big.Int).SetUint64(maskOf(w)))), a))
		}
		return c.Add(ts...)
	}
	return c.Extract(w-1, 0, t)
}
