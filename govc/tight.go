package main

import "math/big"

// Bounds of sums with quotients of products. For D = x*q div N with 0 <= x <= N,
// D lies between min(0,q) and max(0,q); for D = c*n div d with n <= d, D <= c.

func hasDiv(t *Term) bool {
	if t.op == ODiv {
		return true
	}
	if t.op == OLin || t.op == OMul {
		for _, a := range t.args {
			if hasDiv(a) {
				return true
			}
		}
	}
	return false
}

// bounds is ivOf with the rules above.
func (x *Ex) bounds(st *State, t *Term) (*big.Int, *big.Int) {
	lo, hi := x.ivOf(st, t)
	if !nonlinear(t) {
		return lo, hi
	}
	n := &upperWork{memo: map[*Term]upperMemo{}}
	hi = tighter(hi, x.upper(st, t, 0, n), false)
	if l := x.upper(st, x.c.Neg(t), 0, n); l != nil {
		lo = tighter(lo, new(big.Int).Neg(l), true)
	}
	return lo, hi
}

type upperMemo struct {
	depth int
	v     *big.Int
}

type upperWork struct {
	n    int
	memo map[*Term]upperMemo
}

func nonlinear(t *Term) bool {
	switch t.op {
	case OMul, ODiv:
		return true
	case OLin:
		for _, a := range t.args {
			if a.op == OMul || a.op == ODiv {
				return true
			}
		}
	}
	return false
}

// vertex is the maximum of a sum of products, each linear in every factor, over the
// box of the factors' bounds: it is taken at a corner.
func (x *Ex) vertex(st *State, p poly, depth int, work *upperWork) *big.Int {
	var vs []*Term
	at := map[*Term]int{}
	mul := false
	for _, m := range sortedMonos(p) {
		mul = mul || m.op == OMul
		seen := map[*Term]bool{}
		for _, f := range factorsOf(m) {
			if seen[f] {
				return nil
			}
			seen[f] = true
			if _, ok := at[f]; !ok {
				at[f] = len(vs)
				vs = append(vs, f)
			}
		}
	}
	if !mul || len(vs) > 6 {
		return nil
	}
	los, his := make([]*big.Int, len(vs)), make([]*big.Int, len(vs))
	for i, v := range vs {
		los[i], his[i] = x.ivOf(st, v)
		if hasDiv(v) {
			his[i] = tighter(his[i], x.upper(st, v, depth+1, work), false)
			if l := x.upper(st, x.c.Neg(v), depth+1, work); l != nil {
				los[i] = tighter(los[i], new(big.Int).Neg(l), true)
			}
		}
		if los[i] == nil || his[i] == nil {
			return nil
		}
	}
	var best *big.Int
	for b := 0; b < 1<<len(vs); b++ {
		s := new(big.Int).Set(p.k)
		for m, k := range p.m {
			pr := new(big.Int).Set(k)
			for _, f := range factorsOf(m) {
				i := at[f]
				if b>>i&1 == 1 {
					pr.Mul(pr, his[i])
				} else {
					pr.Mul(pr, los[i])
				}
			}
			s.Add(s, pr)
		}
		if best == nil || s.Cmp(best) > 0 {
			best = s
		}
	}
	return best
}

// upper is an upper bound of t, nil if none is known.
func (x *Ex) upper(st *State, t *Term, depth int, work *upperWork) *big.Int {
	if m, ok := work.memo[t]; ok && m.depth <= depth {
		return m.v
	}
	v := x.upper1(st, t, depth, work)
	work.memo[t] = upperMemo{depth, v}
	return v
}

func (x *Ex) upper1(st *State, t *Term, depth int, work *upperWork) *big.Int {
	_, best := x.ivOf(st, t)
	if depth > 7 || work.n > 3000 || !nonlinear(t) {
		return best
	}
	work.n++
	c := x.c
	best = tighter(best, x.vertex(st, c.toPoly(t), depth, work), false)
	if !hasDiv(t) {
		return best
	}
	neg := func(t *Term) bool { // t <= 0
		h := x.upper(st, t, depth+1, work)
		return h != nil && h.Sign() <= 0
	}
	p := c.toPoly(t)
	// a common factor
	if nk := new(big.Int).Neg(p.k); len(p.m) > 0 {
		p0 := poly{b0, p.m}
		for _, v := range commonFactors(p0) {
			l, h := x.ivOf(st, v)
			if hasDiv(v) {
				h = x.upper(st, v, depth+1, work)
				if l2 := x.upper(st, c.Neg(v), depth+1, work); l2 != nil {
					l = tighter(l, new(big.Int).Neg(l2), true)
				}
			}
			if l == nil || l.Sign() < 0 || h == nil {
				continue
			}
			q := c.Int(0)
			for _, mo := range sortedMonos(p0) {
				q = c.Add(q, c.Scale(c.dropFactor(mo, v), p.m[mo]))
			}
			if q.isNum() {
				continue
			}
			if qh := x.upper(st, q, depth+1, work); qh != nil {
				var b *big.Int
				if qh.Sign() > 0 {
					b = new(big.Int).Mul(qh, h)
				} else {
					b = new(big.Int).Mul(qh, l)
				}
				best = tighter(best, b.Sub(b, nk), false)
			}
		}
	}
	for _, D := range sortedMonos(p) {
		if D.op != ODiv {
			continue
		}
		k := p.m[D]
		num, N := D.args[0], D.args[1]
		pn := c.toPoly(num)
		try := func(v, q *Term, m *big.Int, sub *Term) {
			// D + m*v lies between min(0,q) and max(0,q)
			rest := c.Sub(t, c.Add(c.Scale(D, k), c.Scale(v, new(big.Int).Mul(k, m))))
			_ = sub
			var b *Term
			switch {
			case neg(c.Neg(q)): // q >= 0
				if k.Sign() > 0 {
					b = q
				} else {
					b = c.Int(0)
				}
			case neg(q):
				if k.Sign() > 0 {
					b = c.Int(0)
				} else {
					b = q
				}
			default:
				return
			}
			h := x.upper(st, c.Add(rest, c.Scale(b, k)), depth+1, work)
			best = tighter(best, h, false)
		}
		if N.isNum() && N.k.Sign() > 0 && pn.k.Sign() == 0 {
			for _, v := range commonFactors(pn) {
				q := c.Int(0)
				for _, mo := range sortedMonos(pn) {
					q = c.Add(q, c.Scale(c.dropFactor(mo, v), pn.m[mo]))
				}
				if k.Sign() > 0 && len(pn.m) > 1 && neg(c.Neg(v)) && neg(c.Sub(q, N)) {
					// q <= N: D <= v
					h := x.upper(st, c.Add(c.Sub(t, c.Scale(D, k)), c.Scale(v, k)), depth+1, work)
					best = tighter(best, h, false)
				}
				l, h := x.ivOf(st, v)
				if hasDiv(v) {
					h = x.upper(st, v, depth+1, work)
					if l2 := x.upper(st, c.Neg(v), depth+1, work); l2 != nil {
						l = tighter(l, new(big.Int).Neg(l2), true)
					}
				}
				if l == nil || l.Sign() < 0 || h == nil || h.Cmp(N.k) > 0 {
					continue
				}
				if k.Sign() < 0 && neg(c.Sub(q, N)) {
					// (N-v)*(N-q) >= 0: D >= v+q-N
					b := c.Sub(c.Add(v, q), N)
					h := x.upper(st, c.Add(c.Sub(t, c.Scale(D, k)), c.Scale(b, k)), depth+1, work)
					best = tighter(best, h, false)
				}
				try(v, q, b0, nil)
				if mv := p.m[v]; mv != nil {
					m, r := new(big.Int).QuoRem(mv, k, new(big.Int))
					if r.Sign() == 0 {
						try(v, c.Add(q, c.Scale(N, m)), m, nil)
					}
				}
			}
		}
		// content
		if k.Sign() > 0 && pn.k.Sign() == 0 && !N.isNum() {
			if l, _ := x.ivOf(st, N); (l != nil && l.Sign() > 0) || neg(c.AddK(c.Neg(N), 1)) {
				g := c.polyGcd(pn)
				if g != nil && g.Sign() > 0 {
					n1 := poly{b0, map[*Term]*big.Int{}}
					for mo, kk := range pn.m {
						n1.m[mo] = new(big.Int).Quo(kk, g)
					}
					if neg(c.Sub(c.fromPoly(n1), N)) {
						rest := c.Sub(t, c.Scale(D, k))
						h := x.upper(st, c.Add(rest, c.Big(new(big.Int).Mul(k, g))), depth+1, work)
						best = tighter(best, h, false)
					}
				}
			}
		}
		// quotients of sums with the same sign as their numerator
		if k.Sign() < 0 && !N.isNum() {
			if l, _ := x.ivOf(st, N); (l != nil && l.Sign() > 0) || neg(c.AddK(c.Neg(N), 1)) {
				if neg(c.Neg(num)) {
					rest := c.Sub(t, c.Scale(D, k))
					h := x.upper(st, rest, depth+1, work)
					best = tighter(best, h, false)
				}
			}
		}
	}
	return best
}

func sortedMonos(p poly) []*Term {
	var r []*Term
	for m := range p.m {
		i := len(r)
		r = append(r, m)
		for i > 0 && r[i-1].id > m.id {
			r[i] = r[i-1]
			i--
		}
		r[i] = m
	}
	return r
}

func factorsOf(m *Term) []*Term {
	if m.op == OMul {
		return m.args
	}
	return []*Term{m}
}

func commonFactors(p poly) []*Term {
	var r []*Term
	ms := sortedMonos(p)
	if len(ms) == 0 {
		return nil
	}
next:
	for i, f := range factorsOf(ms[0]) {
		for _, g := range factorsOf(ms[0])[:i] {
			if f == g {
				continue next
			}
		}
		for _, m := range ms[1:] {
			ok := false
			for _, g := range factorsOf(m) {
				ok = ok || g == f
			}
			if !ok {
				continue next
			}
		}
		r = append(r, f)
	}
	return r
}

func (c *Ctx) dropFactor(m, f *Term) *Term {
	r := c.Int(1)
	used := false
	for _, g := range factorsOf(m) {
		if g == f && !used {
			used = true
			continue
		}
		r = c.Mul(r, g)
	}
	return r
}
