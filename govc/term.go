package main

// Hash-consed first-order terms with a polynomial normal form for integers.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SStr // strings
	SIfc // interface values
	SFlt // floating point values
	SSeq // abstract (ghost) values
	SFn  // function values
)

var sortName = [...]string{"Int", "Bool", "Str", "Ifc", "Flt", "GSeq", "Fn"}

type Op uint8

const (
	OConst Op = iota
	OVar
	OApp
	OLin
	OMul
	ODiv // floor division, divisor args[1]
	OIte
	OEq
	OLe // args[0] <= 0
	ONot
	OAnd
	OOr
	OBound  // bound variable of a quantified fact
	OForall // args[0] = body, bound vars in args[1:]
)

type Term struct {
	id     int
	op     Op
	sort   Sort
	name   string
	k      *big.Int
	coef   []*big.Int
	args   []*Term
	lo, hi *big.Int
	hasBnd bool
}

var (
	b0 = big.NewInt(0)
	b1 = big.NewInt(1)
)

// Ctx owns a table of terms. It is not safe for concurrent use.
type Ctx struct {
	tab   map[string]*Term
	terms []*Term
	nvar  int
	True  *Term
	False *Term
	// interval declared for applications of a function symbol
	appLo, appHi map[string]*big.Int
	tabMemo      map[*Term]*Term
	varsMemo     map[*Term][]*Term
	tagNames     map[string]int64
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, appLo: map[string]*big.Int{}, appHi: map[string]*big.Int{}, tabMemo: map[*Term]*Term{}, varsMemo: map[*Term][]*Term{}, tagNames: map[string]int64{}}
	c.True = c.mk(&Term{op: OConst, sort: SBool, name: "true"})
	c.False = c.mk(&Term{op: OConst, sort: SBool, name: "false"})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte('a' + t.op))
	sb.WriteByte(byte('0' + t.sort))
	sb.WriteString(t.name)
	if t.k != nil {
		sb.WriteByte('#')
		sb.WriteString(t.k.String())
	}
	for i, a := range t.args {
		sb.WriteByte(',')
		if t.coef != nil {
			sb.WriteString(t.coef[i].String())
			sb.WriteByte('*')
		}
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	if o, ok := c.tab[key]; ok {
		return o
	}
	t.id = len(c.terms)
	for _, a := range t.args {
		if a.hasBnd {
			t.hasBnd = true
		}
	}
	if t.op == OBound {
		t.hasBnd = true
	}
	if t.op == OForall {
		t.hasBnd = false
		own := map[*Term]bool{}
		for _, v := range t.args[1:] {
			own[v] = true
		}
		seen := map[*Term]bool{}
		var free func(a *Term) bool
		free = func(a *Term) bool {
			if !a.hasBnd || seen[a] {
				return false
			}
			seen[a] = true
			if a.op == OBound {
				return !own[a]
			}
			if a.op == OForall {
				return true // conservative: nested quantifiers are merged into one
			}
			for _, b := range a.args {
				if free(b) {
					return true
				}
			}
			return false
		}
		t.hasBnd = free(t.args[0])
	}
	c.tab[key] = t
	c.terms = append(c.terms, t)
	if t.sort == SInt {
		c.interval(t)
	}
	return t
}

func (c *Ctx) Big(k *big.Int) *Term { return c.mk(&Term{op: OConst, sort: SInt, k: k}) }
func (c *Ctx) Int(k int64) *Term    { return c.Big(big.NewInt(k)) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Str(s string) *Term { return c.mk(&Term{op: OConst, sort: SStr, name: s}) }
func (c *Ctx) Flt(name string) *Term {
	return c.mk(&Term{op: OConst, sort: SFlt, name: name})
}

// Var makes a fresh variable.
func (c *Ctx) Var(name string, s Sort, lo, hi *big.Int) *Term {
	c.nvar++
	t := &Term{op: OVar, sort: s, name: fmt.Sprintf("%s!%d", name, c.nvar), lo: lo, hi: hi}
	return c.mk(t)
}
func (c *Ctx) Bound(name string, lo, hi *big.Int) *Term {
	c.nvar++
	return c.mk(&Term{op: OBound, sort: SInt, name: fmt.Sprintf("%s!b%d", name, c.nvar), lo: lo, hi: hi})
}

func (c *Ctx) App(name string, s Sort, args ...*Term) *Term {
	return c.mk(&Term{op: OApp, sort: s, name: name, args: args})
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isNum() bool   { return t.op == OConst && t.sort == SInt }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort == SBool && t.name == "true" }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort == SBool && t.name == "false" }
func (t *Term) i64() (int64, bool) {
	if t.isNum() && t.k.IsInt64() {
		return t.k.Int64(), true
	}
	return 0, false
}

// ---- intervals

func (c *Ctx) interval(t *Term) {
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
	case OVar, OBound:
	case OApp:
		if l, ok := c.appLo[t.name]; ok {
			t.lo = l
		}
		if h, ok := c.appHi[t.name]; ok {
			t.hi = h
		}
	case OLin:
		t.lo, t.hi = linIv(t, func(a *Term) (*big.Int, *big.Int) { return a.lo, a.hi })
	case OMul:
		t.lo, t.hi = mulIvs(t, func(a *Term) (*big.Int, *big.Int) { return a.lo, a.hi })
	case ODiv:
		t.lo, t.hi = divIv(t, func(a *Term) (*big.Int, *big.Int) { return a.lo, a.hi })
	case OIte:
		a, b := t.args[1], t.args[2]
		t.lo, t.hi = minB(a.lo, b.lo), maxB(a.hi, b.hi)
	}
}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

type ivFn func(*Term) (*big.Int, *big.Int)

func linIv(t *Term, f ivFn) (*big.Int, *big.Int) {
	lo, hi := new(big.Int).Set(t.k), new(big.Int).Set(t.k)
	for i, a := range t.args {
		al, ah := f(a)
		k := t.coef[i]
		if k.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(al, k))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(ah, k))
			}
		}
	}
	return lo, hi
}

func mulIvs(t *Term, f ivFn) (*big.Int, *big.Int) {
	lo, hi := f(t.args[0])
	for i := 1; i < len(t.args); i++ {
		al, ah := f(t.args[i])
		if i == 1 && len(t.args) == 2 && t.args[0] == t.args[1] {
			// square
			l, h := mulIv(lo, hi, al, ah)
			if l == nil || l.Sign() < 0 {
				l = b0
			}
			lo, hi = l, h
			continue
		}
		lo, hi = mulIv(lo, hi, al, ah)
	}
	return lo, hi
}

func mulIv(al, ah, bl, bh *big.Int) (*big.Int, *big.Int) {
	if al != nil && ah != nil && bl != nil && bh != nil {
		var lo, hi *big.Int
		for _, x := range []*big.Int{al, ah} {
			for _, y := range []*big.Int{bl, bh} {
				p := new(big.Int).Mul(x, y)
				if lo == nil || p.Cmp(lo) < 0 {
					lo = p
				}
				if hi == nil || p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
		return lo, hi
	}
	if al != nil && bl != nil && al.Sign() >= 0 && bl.Sign() >= 0 {
		return new(big.Int).Mul(al, bl), nil
	}
	return nil, nil
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean: m >= 0
	if b.Sign() < 0 && m.Sign() != 0 {
		// Euclid with b<0: a = b*q + m, floor = q-1
		q.Sub(q, b1)
	}
	return q
}

func divIv(t *Term, f ivFn) (*big.Int, *big.Int) {
	nl, nh := f(t.args[0])
	d := t.args[1]
	if d.isNum() && d.k.Sign() > 0 {
		var lo, hi *big.Int
		if nl != nil {
			lo = floorDiv(nl, d.k)
		}
		if nh != nil {
			hi = floorDiv(nh, d.k)
		}
		return lo, hi
	}
	dl, dh := f(d)
	if dl != nil && dl.Sign() > 0 && nl != nil && nl.Sign() >= 0 {
		lo := b0
		var hi *big.Int
		if dh != nil {
			lo = floorDiv(nl, dh)
		}
		if nh != nil {
			hi = floorDiv(nh, dl)
		}
		return lo, hi
	}
	if nl != nil && nl.Sign() >= 0 && dl != nil && dl.Sign() >= 0 { // division by a divisor proved non-zero elsewhere
		return nil, nil
	}
	return nil, nil
}

// ---- polynomials

type poly struct {
	k *big.Int
	m map[*Term]*big.Int
}

func (c *Ctx) toPoly(t *Term) poly {
	switch t.op {
	case OConst:
		return poly{t.k, nil}
	case OLin:
		m := make(map[*Term]*big.Int, len(t.args))
		for i, a := range t.args {
			m[a] = t.coef[i]
		}
		return poly{t.k, m}
	}
	return poly{b0, map[*Term]*big.Int{t: b1}}
}

func (c *Ctx) fromPoly(p poly) *Term {
	var ms []*Term
	for m, k := range p.m {
		if k.Sign() != 0 {
			ms = append(ms, m)
		}
	}
	if len(ms) == 0 {
		return c.Big(p.k)
	}
	if len(ms) == 1 && p.k.Sign() == 0 && p.m[ms[0]].Cmp(b1) == 0 {
		return ms[0]
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
	cs := make([]*big.Int, len(ms))
	for i, m := range ms {
		cs[i] = p.m[m]
	}
	return c.mk(&Term{op: OLin, sort: SInt, k: p.k, coef: cs, args: ms})
}

func addPoly(a, b poly, f *big.Int) poly {
	r := poly{new(big.Int).Add(a.k, new(big.Int).Mul(b.k, f)), make(map[*Term]*big.Int, len(a.m)+len(b.m))}
	for m, k := range a.m {
		r.m[m] = k
	}
	for m, k := range b.m {
		x := new(big.Int).Mul(k, f)
		if o, ok := r.m[m]; ok {
			x.Add(x, o)
		}
		if x.Sign() == 0 {
			delete(r.m, m)
		} else {
			r.m[m] = x
		}
	}
	return r
}

func (c *Ctx) Add(a, b *Term) *Term {
	return c.fromPoly(addPoly(c.toPoly(a), c.toPoly(b), b1))
}
func (c *Ctx) Sub(a, b *Term) *Term {
	return c.fromPoly(addPoly(c.toPoly(a), c.toPoly(b), big.NewInt(-1)))
}
func (c *Ctx) AddK(a *Term, k int64) *Term { return c.Add(a, c.Int(k)) }
func (c *Ctx) Scale(a *Term, k *big.Int) *Term {
	return c.fromPoly(addPoly(poly{b0, nil}, c.toPoly(a), k))
}
func (c *Ctx) Neg(a *Term) *Term { return c.Scale(a, big.NewInt(-1)) }

func (c *Ctx) mulMono(a, b *Term) *Term {
	var fs []*Term
	if a.op == OMul {
		fs = append(fs, a.args...)
	} else {
		fs = append(fs, a)
	}
	if b.op == OMul {
		fs = append(fs, b.args...)
	} else {
		fs = append(fs, b)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return c.mk(&Term{op: OMul, sort: SInt, args: fs})
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isNum() {
		return c.Scale(b, a.k)
	}
	if b.isNum() {
		return c.Scale(a, b.k)
	}
	pa, pb := c.toPoly(a), c.toPoly(b)
	r := poly{new(big.Int).Mul(pa.k, pb.k), map[*Term]*big.Int{}}
	acc := func(m *Term, k *big.Int) {
		if k.Sign() == 0 {
			return
		}
		x := new(big.Int).Set(k)
		if o, ok := r.m[m]; ok {
			x.Add(x, o)
		}
		if x.Sign() == 0 {
			delete(r.m, m)
		} else {
			r.m[m] = x
		}
	}
	for m, k := range pa.m {
		acc(m, new(big.Int).Mul(k, pb.k))
	}
	for m, k := range pb.m {
		acc(m, new(big.Int).Mul(k, pa.k))
	}
	for m, k := range pa.m {
		for n, l := range pb.m {
			acc(c.mulMono(m, n), new(big.Int).Mul(k, l))
		}
	}
	return c.fromPoly(r)
}

// Div is floor division.
func (c *Ctx) Div(a, d *Term) *Term {
	if d.isNum() {
		if d.k.Sign() == 0 {
			return c.mk(&Term{op: ODiv, sort: SInt, args: []*Term{a, d}})
		}
		if d.k.Sign() < 0 {
			return c.Div(c.Neg(a), c.Neg(d))
		}
		if d.k.Cmp(b1) == 0 {
			return a
		}
		if a.isNum() {
			return c.Big(floorDiv(a.k, d.k))
		}
		// pull out multiples of d
		p := c.toPoly(a)
		out := poly{floorDiv(p.k, d.k), map[*Term]*big.Int{}}
		in := poly{new(big.Int).Sub(p.k, new(big.Int).Mul(out.k, d.k)), map[*Term]*big.Int{}}
		for m, k := range p.m {
			q := new(big.Int).Quo(k, d.k) // truncated
			r := new(big.Int).Sub(k, new(big.Int).Mul(q, d.k))
			if q.Sign() != 0 {
				out.m[m] = q
			}
			if r.Sign() != 0 {
				in.m[m] = r
			}
		}
		n := c.fromPoly(in)
		o := c.fromPoly(out)
		if n.isNum() {
			return c.Add(o, c.Big(floorDiv(n.k, d.k)))
		}
		// gcd reduction
		g := new(big.Int).Set(d.k)
		for _, k := range in.m {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		dd := d
		if g.Cmp(b1) > 0 {
			np := poly{floorDiv(in.k, g), map[*Term]*big.Int{}}
			for m, k := range in.m {
				np.m[m] = new(big.Int).Quo(k, g)
			}
			n = c.fromPoly(np)
			dd = c.Big(new(big.Int).Quo(d.k, g))
			if dd.k.Cmp(b1) == 0 {
				return c.Add(o, n)
			}
		}
		// nested constant division
		if n.op == ODiv && n.args[1].isNum() && n.args[1].k.Sign() > 0 {
			return c.Add(o, c.Div(n.args[0], c.Big(new(big.Int).Mul(n.args[1].k, dd.k))))
		}
		// interval collapse
		if n.lo != nil && n.hi != nil {
			l, h := floorDiv(n.lo, dd.k), floorDiv(n.hi, dd.k)
			if l.Cmp(h) == 0 {
				return c.Add(o, c.Big(l))
			}
		}
		if n.op == OIte && n.args[1].isConst() && n.args[2].isConst() {
			return c.Add(o, c.Ite(n.args[0], c.Div(n.args[1], dd), c.Div(n.args[2], dd)))
		}
		return c.Add(o, c.mk(&Term{op: ODiv, sort: SInt, args: []*Term{n, dd}}))
	}
	if a.isNum() && a.k.Sign() == 0 {
		return a // 0/d, d checked non-zero separately
	}
	if a == d {
		return c.Int(1) // d checked non-zero separately
	}
	return c.mk(&Term{op: ODiv, sort: SInt, args: []*Term{a, d}})
}

func (c *Ctx) Mod(a, d *Term) *Term {
	return c.Sub(a, c.Mul(d, c.Div(a, d)))
}

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a.isTrue():
		return c.False
	case a.isFalse():
		return c.True
	case a.op == ONot:
		return a.args[0]
	case a.op == OLe:
		return c.le0(c.AddK(c.Neg(a.args[0]), 1))
	}
	return c.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func (c *Ctx) And(as ...*Term) *Term { return c.nary(OAnd, c.True, c.False, as) }
func (c *Ctx) Or(as ...*Term) *Term  { return c.nary(OOr, c.False, c.True, as) }

func (c *Ctx) nary(op Op, unit, zero *Term, as []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(a *Term) bool
	walk = func(a *Term) bool {
		if a == unit || seen[a] {
			return true
		}
		if a == zero {
			return false
		}
		if a.op == op {
			for _, x := range a.args {
				if !walk(x) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !walk(a) {
			return zero
		}
	}
	if op == OOr && len(out) > 1 {
		// A or (not A and B) = A or B
		ch := false
		for i, a := range out {
			if a.op != OAnd {
				continue
			}
			var keep []*Term
			for _, b := range a.args {
				if n := c.Not(b); n == a || !seen[n] {
					keep = append(keep, b)
				}
			}
			if len(keep) != len(a.args) {
				out[i] = c.And(keep...)
				ch = true
			}
		}
		if ch {
			return c.Or(out...)
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: op, sort: SBool, args: out})
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) polyGcd(p poly) *big.Int {
	g := new(big.Int)
	for _, k := range p.m {
		g.GCD(nil, nil, g, new(big.Int).Abs(k))
	}
	return g
}

func (c *Ctx) le0(t *Term) *Term {
	if t.isNum() {
		return c.Bool(t.k.Sign() <= 0)
	}
	if t.hi != nil && t.hi.Sign() <= 0 {
		return c.True
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		return c.False
	}
	p := c.toPoly(t)
	g := c.polyGcd(p)
	if g.Cmp(b1) > 0 {
		// sum + k <= 0  <=>  sum/g <= floor(-k/g)
		np := poly{new(big.Int).Neg(floorDiv(new(big.Int).Neg(p.k), g)), map[*Term]*big.Int{}}
		for m, k := range p.m {
			np.m[m] = new(big.Int).Quo(k, g)
		}
		t = c.fromPoly(np)
	}
	// floor(n/d) <= -k with constant d: n <= -k*d + d-1
	if t.op == OLin || t.op == ODiv {
		p := c.toPoly(t)
		if len(p.m) == 1 {
			for m, k := range p.m {
				if m.op == ODiv && m.args[1].isNum() && m.args[1].k.Sign() > 0 {
					d := m.args[1].k
					if k.Cmp(b1) == 0 {
						// q <= -K  <=> n < (-K+1)*d
						lim := new(big.Int).Mul(new(big.Int).Sub(b1, p.k), d)
						return c.le0(c.Add(m.args[0], c.Big(new(big.Int).Sub(b1, lim))))
					} else if k.Cmp(big.NewInt(-1)) == 0 {
						// q >= K <=> n >= K*d
						return c.le0(c.Sub(c.Big(new(big.Int).Mul(p.k, d)), m.args[0]))
					}
				}
			}
		}
	}
	if t.op == OIte && (t.args[1].isConst() || t.args[2].isConst()) {
		a, b := c.le0(t.args[1]), c.le0(t.args[2])
		if a.isConst() || b.isConst() {
			return c.Or(c.And(t.args[0], a), c.And(c.Not(t.args[0]), b))
		}
	}
	return c.mk(&Term{op: OLe, sort: SBool, args: []*Term{t}})
}

func (c *Ctx) Le(a, b *Term) *Term { return c.le0(c.Sub(a, b)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.le0(c.AddK(c.Sub(a, b), 1)) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

// isBox reports whether t is an interface value whose dynamic type is manifest.
func isBox(t *Term) bool {
	return t.op == OApp && t.sort == SIfc && (strings.HasPrefix(t.name, "box:") || t.name == "ifc.nil")
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq of different sorts: %s / %s", c.Show(a), c.Show(b)))
	}
	if a.sort == SIfc {
		if a.op == OApp && a.name == "ifc.nil" {
			return c.Eq(c.tagOf(b), c.Int(0))
		}
		if b.op == OApp && b.name == "ifc.nil" {
			return c.Eq(c.tagOf(a), c.Int(0))
		}
	}
	switch a.sort {
	case SBool:
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
		return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
	case SInt:
		d := c.Sub(a, b)
		if d.isNum() {
			return c.Bool(d.k.Sign() == 0)
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return c.False
		}
		p := c.toPoly(d)
		g := c.polyGcd(p)
		if g.Cmp(b1) > 0 {
			if new(big.Int).Mod(p.k, g).Sign() != 0 {
				return c.False
			}
			np := poly{new(big.Int).Quo(p.k, g), map[*Term]*big.Int{}}
			for m, k := range p.m {
				np.m[m] = new(big.Int).Quo(k, g)
			}
			d = c.fromPoly(np)
		}
		// sign normalisation: first coefficient positive
		if d.op == OLin && d.coef[0].Sign() < 0 {
			d = c.Neg(d)
		}
		if d.op == OIte {
			x, y := c.Eq(d.args[1], c.Int(0)), c.Eq(d.args[2], c.Int(0))
			if x.isConst() || y.isConst() {
				return c.Or(c.And(d.args[0], x), c.And(c.Not(d.args[0]), y))
			}
		}
		if d.op == OLin && len(d.args) == 1 && d.args[0].op == OIte {
			ite := d.args[0]
			x := c.Eq(c.Add(c.Scale(ite.args[1], d.coef[0]), c.Big(d.k)), c.Int(0))
			y := c.Eq(c.Add(c.Scale(ite.args[2], d.coef[0]), c.Big(d.k)), c.Int(0))
			if x.isConst() || y.isConst() {
				return c.Or(c.And(ite.args[0], x), c.And(c.Not(ite.args[0]), y))
			}
		}
		return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{d}})
	case SStr:
		if a.isConst() && b.isConst() {
			return c.Bool(a.name == b.name)
		}
		if r := c.strEq(a, b); r != nil {
			return r
		}
	case SFlt:
		if a.isConst() && b.isConst() {
			return c.Bool(a.name == b.name && a.name != "NaN")
		}
	case SFn:
		if a.op == OApp && b.op == OApp && len(a.args) == 0 && len(b.args) == 0 {
			return c.Bool(a.name == b.name)
		}
	case SIfc:
		if isBox(a) && isBox(b) {
			if a.name != b.name {
				return c.False
			}
			var cs []*Term
			for i := range a.args {
				cs = append(cs, c.Eq(a.args[i], b.args[i]))
			}
			return c.And(cs...)
		}
		if a.op == OIte {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
		if b.op == OIte {
			return c.Ite(b.args[0], c.Eq(a, b.args[1]), c.Eq(a, b.args[2]))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func (c *Ctx) Ite(cd, a, b *Term) *Term {
	if cd.isTrue() || a == b {
		return a
	}
	if cd.isFalse() {
		return b
	}
	if a.sort == SBool {
		return c.Or(c.And(cd, a), c.And(c.Not(cd), b))
	}
	if cd.op == ONot {
		return c.Ite(cd.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == cd {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == cd {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(&Term{op: OIte, sort: a.sort, args: []*Term{cd, a, b}})
}

// Forall quantifies body over bound variables, merging nested quantifiers.
func (c *Ctx) Forall(vs []*Term, body *Term) *Term {
	if !body.hasBnd || body.isConst() {
		return body // the range is part of the body
	}
	if body.op == OAnd {
		var r []*Term
		for _, a := range body.args {
			r = append(r, c.Forall(vs, a))
		}
		return c.And(r...)
	}
	if body.op == OForall {
		return c.Forall(append(append([]*Term{}, vs...), body.args[1:]...), body.args[0])
	}
	if body.op == OOr {
		for i, a := range body.args {
			if a.op == OForall {
				rest := append(append([]*Term{}, body.args[:i]...), body.args[i+1:]...)
				rest = append(rest, a.args[0])
				return c.Forall(append(append([]*Term{}, vs...), a.args[1:]...), c.Or(rest...))
			}
			if a.op == OAnd {
				for _, b := range a.args {
					if b.op == OForall { // distribute so that quantifiers stay in prenex form
						rest := append(append([]*Term{}, body.args[:i]...), body.args[i+1:]...)
						var r []*Term
						for _, d := range a.args {
							r = append(r, c.Forall(vs, c.Or(append(append([]*Term{}, rest...), d)...)))
						}
						return c.And(r...)
					}
				}
			}
		}
	}
	used := map[*Term]bool{}
	collect([]*Term{body}, func(t *Term) {
		if t.op == OBound {
			used[t] = true
		}
	})
	var us []*Term
	for _, v := range vs {
		if used[v] {
			us = append(us, v)
		}
	}
	return c.mk(&Term{op: OForall, sort: SBool, args: append([]*Term{body}, us...)})
}

// ---- strings

func (c *Ctx) Cat(as ...*Term) *Term {
	var parts []*Term
	for _, a := range as {
		if a.op == OApp && a.name == "str.cat" {
			parts = append(parts, a.args...)
		} else {
			parts = append(parts, a)
		}
	}
	var out []*Term
	for _, p := range parts {
		if p.isConst() && p.name == "" {
			continue
		}
		if p.isConst() && len(out) > 0 && out[len(out)-1].isConst() {
			out[len(out)-1] = c.Str(out[len(out)-1].name + p.name)
			continue
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return c.Str("")
	case 1:
		return out[0]
	}
	return c.App("str.cat", SStr, out...)
}

func (c *Ctx) strParts(a *Term) []*Term {
	if a.op == OApp && a.name == "str.cat" {
		return a.args
	}
	return []*Term{a}
}

// strBytes are the bytes of a constant string or of one made from a number of bytes.
func (c *Ctx) strBytes(a *Term) ([]*Term, bool) {
	if a.isConst() {
		var r []*Term
		for i := 0; i < len(a.name); i++ {
			r = append(r, c.Int(int64(a.name[i])))
		}
		return r, true
	}
	if a.op == OApp && strings.HasPrefix(a.name, "str.of") && a.name == fmt.Sprintf("str.of%d", len(a.args)) {
		return a.args, true
	}
	return nil, false
}

// strEq simplifies equalities of concatenations; nil when it cannot.
func (c *Ctx) strEq(a, b *Term) *Term {
	pa, pb := c.strParts(a), c.strParts(b)
	if len(pa) == 1 && len(pb) == 1 {
		if ba, ok := c.strBytes(a); ok {
			if bb, ok := c.strBytes(b); ok && (a.op == OApp || b.op == OApp) {
				if len(ba) != len(bb) {
					return c.False
				}
				r := c.True
				for i := range ba {
					r = c.And(r, c.Eq(ba[i], bb[i]))
				}
				return r
			}
		}
		// injective converters
		if a.op == OApp && b.op == OApp && a.name == b.name && a.name == "itoa" {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.op == OApp && a.name == "itoa" && b.isConst() || b.op == OApp && b.name == "itoa" && a.isConst() {
			s, x := b, a
			if a.isConst() {
				s, x = a, b
			}
			n, ok := new(big.Int).SetString(s.name, 10)
			if !ok || n.String() != s.name {
				return c.False
			}
			return c.Eq(x.args[0], c.Big(n))
		}
		if a.op == OIte && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
		if b.op == OIte && a.isConst() && (b.args[1].isConst() || b.args[2].isConst()) {
			return c.Ite(b.args[0], c.Eq(b.args[1], a), c.Eq(b.args[2], a))
		}
		return nil
	}
	strip := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb, strip = pa[1:], pb[1:], true
			continue
		}
		if x.isConst() && y.isConst() {
			n := min(len(x.name), len(y.name))
			if x.name[:n] != y.name[:n] {
				return c.False
			}
			pa, pb, strip = append([]*Term{c.Str(x.name[n:])}, pa[1:]...), append([]*Term{c.Str(y.name[n:])}, pb[1:]...), true
			if pa[0].name == "" {
				pa = pa[1:]
			}
			if pb[0].name == "" {
				pb = pb[1:]
			}
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb, strip = pa[:len(pa)-1], pb[:len(pb)-1], true
			continue
		}
		if x.isConst() && y.isConst() {
			n := min(len(x.name), len(y.name))
			if x.name[len(x.name)-n:] != y.name[len(y.name)-n:] {
				return c.False
			}
			pa = append(append([]*Term{}, pa[:len(pa)-1]...), c.Str(x.name[:len(x.name)-n]))
			pb = append(append([]*Term{}, pb[:len(pb)-1]...), c.Str(y.name[:len(y.name)-n]))
			if pa[len(pa)-1].name == "" {
				pa = pa[:len(pa)-1]
			}
			if pb[len(pb)-1].name == "" {
				pb = pb[:len(pb)-1]
			}
			strip = true
			continue
		}
		break
	}
	if strip {
		return c.Eq(c.Cat(pa...), c.Cat(pb...))
	}
	if len(pa) == 0 || len(pb) == 0 {
		for _, x := range append(append([]*Term{}, pa...), pb...) {
			if x.isConst() && x.name != "" || x.op == OApp && x.name == "itoa" {
				return c.False
			}
		}
	}
	return nil
}

func (c *Ctx) StrLen(s *Term) *Term {
	if s.isConst() {
		return c.Int(int64(len(s.name)))
	}
	if s.op == OApp && s.name == "str.cat" {
		r := c.Int(0)
		for _, a := range s.args {
			r = c.Add(r, c.StrLen(a))
		}
		return r
	}
	if b, ok := c.strBytes(s); ok {
		return c.Int(int64(len(b)))
	}
	return c.App("str.len", SInt, s)
}

// ---- substitution and rebuilding

func (c *Ctx) Rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OLin:
		r := c.Big(t.k)
		for i, a := range args {
			r = c.Add(r, c.Scale(a, t.coef[i]))
		}
		return r
	case OMul:
		r := args[0]
		for _, a := range args[1:] {
			r = c.Mul(r, a)
		}
		return r
	case ODiv:
		return c.Div(args[0], args[1])
	case OIte:
		return c.Ite(args[0], args[1], args[2])
	case OEq:
		if len(args) == 1 {
			return c.Eq(args[0], c.Int(0))
		}
		return c.Eq(args[0], args[1])
	case OLe:
		return c.le0(args[0])
	case ONot:
		return c.Not(args[0])
	case OAnd:
		return c.And(args...)
	case OOr:
		return c.Or(args...)
	case OForall:
		return c.Forall(args[1:], args[0])
	case OApp:
		switch t.name {
		case "str.cat":
			return c.Cat(args...)
		case "tagof":
			return c.tagOf(args[0])
		case "str.len":
			return c.StrLen(args[0])
		}
		return c.App(t.name, t.sort, args...)
	}
	return t
}

func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(*Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = f(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = c.Rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

// Vars lists the free variables of t (up to 3; more are truncated to 4).
func (c *Ctx) Vars(t *Term) []*Term {
	if v, ok := c.varsMemo[t]; ok {
		return v
	}
	var r []*Term
	if t.op == OVar || t.op == OBound {
		r = []*Term{t}
	} else if t.op == OApp && len(t.args) == 0 {
		r = nil
	} else {
		seen := map[*Term]bool{}
		for _, a := range t.args {
			for _, v := range c.Vars(a) {
				if !seen[v] && len(r) < 4 {
					seen[v] = true
					r = append(r, v)
				}
			}
		}
	}
	c.varsMemo[t] = r
	return r
}

// ---- display

func (c *Ctx) Show(t *Term) string { return show(t, 0) }
func show(t *Term, d int) string {
	if d > 12 {
		return "…"
	}
	j := func(as []*Term, sep string) string {
		var p []string
		for _, a := range as {
			p = append(p, show(a, d+1))
		}
		return strings.Join(p, sep)
	}
	switch t.op {
	case OConst:
		if t.sort == SInt {
			return t.k.String()
		}
		if t.sort == SStr {
			return strconv.Quote(t.name)
		}
		return t.name
	case OVar, OBound:
		return t.name
	case OApp:
		if len(t.args) == 0 {
			return t.name
		}
		return t.name + "(" + j(t.args, ", ") + ")"
	case OLin:
		var p []string
		for i, a := range t.args {
			s := show(a, d+1)
			if t.coef[i].Cmp(b1) != 0 {
				s = t.coef[i].String() + "*" + s
			}
			p = append(p, s)
		}
		if t.k.Sign() != 0 {
			p = append(p, t.k.String())
		}
		return "(" + strings.Join(p, " + ") + ")"
	case OMul:
		return j(t.args, "*")
	case ODiv:
		return "(" + show(t.args[0], d+1) + " div " + show(t.args[1], d+1) + ")"
	case OIte:
		return "ite(" + j(t.args, ", ") + ")"
	case OEq:
		if len(t.args) == 1 {
			return show(t.args[0], d+1) + " = 0"
		}
		return "(" + j(t.args, " = ") + ")"
	case OLe:
		return show(t.args[0], d+1) + " <= 0"
	case ONot:
		return "not(" + show(t.args[0], d+1) + ")"
	case OAnd:
		return "(" + j(t.args, " && ") + ")"
	case OOr:
		return "(" + j(t.args, " || ") + ")"
	case OForall:
		return "forall(" + j(t.args[1:], ",") + " :: " + show(t.args[0], d+1) + ")"
	}
	return "?"
}
