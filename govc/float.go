package main

// Floating point: constants are folded with Go's own arithmetic; other operations are
// uninterpreted, except that an integer computed from floats that depend on one integer
// variable of a small range is tabulated exactly.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
)

func fstr(f float64) string {
	if f == 0 && math.Signbit(f) {
		return "-0"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func fval(t *Term) (float64, bool) {
	if t.op == OConst && t.sort == SFlt {
		f, err := strconv.ParseFloat(t.name, 64)
		return f, err == nil
	}
	return 0, false
}

func is32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

func fbin(op string, a, b float64, f32 bool) (float64, bool) {
	r := func(f float64) float64 {
		if f32 {
			return float64(float32(f))
		}
		return f
	}
	switch op {
	case "+":
		return r(a + b), true
	case "-":
		return r(a - b), true
	case "*":
		return r(a * b), true
	case "/":
		return r(a / b), true
	}
	return 0, false
}

func fcmp(op string, a, b float64) bool {
	switch op {
	case "<":
		return a < b
	case "<=":
		return a <= b
	case ">":
		return a > b
	case ">=":
		return a >= b
	}
	return a == b
}

func (x *Ex) floatop(st *State, op token.Token, a, b *Term, t types.Type) Val {
	c := x.c
	fa, oka := fval(a)
	fb, okb := fval(b)
	n := op.String()
	suf := ""
	if is32(t) {
		suf = "32"
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if oka && okb {
			return c.Bool(fcmp(n, fa, fb))
		}
		r := c.App("f"+n, SBool, a, b)
		if t := x.tabulate(st, r); t != nil {
			return t
		}
		return r
	case token.ADD, token.SUB, token.MUL, token.QUO:
		if oka && okb {
			r, _ := fbin(n, fa, fb, suf != "")
			return c.Flt(fstr(r))
		}
		return c.App("f"+n+suf, SFlt, a, b)
	}
	panic(unsupported("float operator " + n))
}

func (x *Ex) itof(st *State, t *Term, k types.BasicKind) Val {
	if t.isNum() {
		f, _ := new(big.Float).SetInt(t.k).Float64()
		if k == types.Float32 {
			f = float64(float32(f))
		}
		return x.c.Flt(fstr(f))
	}
	if k == types.Float32 {
		return x.c.App("itof32", SFlt, t)
	}
	return x.c.App("itof", SFlt, t)
}

func (x *Ex) fconv(t *Term, k types.BasicKind) Val {
	if f, ok := fval(t); ok {
		if k == types.Float32 {
			f = float64(float32(f))
		}
		return x.c.Flt(fstr(f))
	}
	if k == types.Float32 {
		return x.c.App("f64to32", SFlt, t)
	}
	return t
}

func (x *Ex) ftoi(st *State, t *Term, to types.Type) Val {
	bits, signed, _ := intInfo(to)
	n := fmt.Sprintf("ftoi%d%v", bits, signed)
	lo, hi := intRange(bits, signed)
	x.c.appLo[n], x.c.appHi[n] = lo, hi
	r := x.c.App(n, SInt, t)
	if v := x.tabulate(st, r); v != nil {
		return v
	}
	return r
}

// evalAt evaluates a term with one variable fixed; fails on anything uninterpreted.
func evalAt(t *Term, v *Term, k *big.Int) (val interface{}, ok bool) {
	memo := map[*Term]interface{}{}
	var f func(t *Term) interface{}
	f = func(t *Term) interface{} {
		if t == v {
			return k
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r interface{}
		bi := func(i int) *big.Int { x, _ := f(t.args[i]).(*big.Int); return x }
		switch t.op {
		case OConst:
			switch t.sort {
			case SInt:
				r = t.k
			case SBool:
				r = t.isTrue()
			case SFlt:
				if g, ok := fval(t); ok {
					r = g
				}
			}
		case OLin:
			s := new(big.Int).Set(t.k)
			for i := range t.args {
				b := bi(i)
				if b == nil {
					return nil
				}
				s.Add(s, new(big.Int).Mul(b, t.coef[i]))
			}
			r = s
		case OMul:
			s := big.NewInt(1)
			for i := range t.args {
				b := bi(i)
				if b == nil {
					return nil
				}
				s.Mul(s, b)
			}
			r = s
		case ODiv:
			a, b := bi(0), bi(1)
			if a == nil || b == nil || b.Sign() == 0 {
				return nil
			}
			r = floorDiv(a, b)
		case OLe, OEq:
			if len(t.args) == 1 {
				a := bi(0)
				if a == nil {
					return nil
				}
				r = a.Sign() == 0 || t.op == OLe && a.Sign() < 0
			}
		case ONot:
			if b, ok := f(t.args[0]).(bool); ok {
				r = !b
			}
		case OAnd, OOr:
			res := t.op == OAnd
			for _, a := range t.args {
				b, ok := f(a).(bool)
				if !ok {
					return nil
				}
				if t.op == OAnd {
					res = res && b
				} else {
					res = res || b
				}
			}
			r = res
		case OIte:
			if b, ok := f(t.args[0]).(bool); ok {
				if b {
					r = f(t.args[1])
				} else {
					r = f(t.args[2])
				}
			}
		case OApp:
			var fs []float64
			okf := true
			for _, a := range t.args {
				if g, ok := f(a).(float64); ok {
					fs = append(fs, g)
				} else {
					okf = false
				}
			}
			switch t.name {
			case "itof", "itof32":
				if b := bi(0); b != nil {
					g, _ := new(big.Float).SetInt(b).Float64()
					if t.name == "itof32" {
						g = float64(float32(g))
					}
					r = g
				}
			case "f+", "f-", "f*", "f/", "f+32", "f-32", "f*32", "f/32":
				if okf && len(fs) == 2 {
					g, _ := fbin(t.name[1:2], fs[0], fs[1], len(t.name) > 2)
					r = g
				}
			case "f<", "f<=", "f>", "f>=":
				if okf && len(fs) == 2 {
					r = fcmp(t.name[1:], fs[0], fs[1])
				}
			case "f64to32":
				if okf && len(fs) == 1 {
					r = float64(float32(fs[0]))
				}
			default:
				if len(t.name) > 4 && t.name[:4] == "ftoi" && okf && len(fs) == 1 {
					g := math.Trunc(fs[0])
					if t.lo != nil && !math.IsNaN(g) && !math.IsInf(g, 0) {
						b, _ := big.NewFloat(g).Int(nil)
						if b.Cmp(t.lo) >= 0 && b.Cmp(t.hi) <= 0 {
							r = b
						}
					}
				}
			}
		}
		memo[t] = r
		return r
	}
	r := f(t)
	return r, r != nil
}

// tabulate replaces a term over a single small-range variable by an explicit table.
func (x *Ex) tabulate(st *State, t *Term) *Term {
	c := x.c
	vs := c.Vars(t)
	if len(vs) != 1 || vs[0].sort != SInt {
		return nil
	}
	v := vs[0]
	lo, hi := x.ivOf(st, v)
	if lo == nil || hi == nil {
		return nil
	}
	n := new(big.Int).Sub(hi, lo)
	if !n.IsInt64() || n.Int64() > 4096 {
		return nil
	}
	var tab []interface{}
	for i := int64(0); i <= n.Int64(); i++ {
		r, ok := evalAt(t, v, new(big.Int).Add(lo, big.NewInt(i)))
		if !ok {
			return nil
		}
		tab = append(tab, r)
	}
	if t.sort == SBool {
		// union of intervals
		var alts []*Term
		for i := 0; i < len(tab); {
			if !tab[i].(bool) {
				i++
				continue
			}
			j := i
			for j+1 < len(tab) && tab[j+1].(bool) {
				j++
			}
			a := c.Big(new(big.Int).Add(lo, big.NewInt(int64(i))))
			b := c.Big(new(big.Int).Add(lo, big.NewInt(int64(j))))
			alts = append(alts, c.And(c.Le(a, v), c.Le(v, b)))
			i = j + 1
		}
		return c.Or(alts...)
	}
	// value - v constant on runs
	type run struct {
		from, to int
		d        *big.Int
		slope    int64
	}
	for _, slope := range []int64{1, -1, 0} {
		var rs []run
		for i := range tab {
			d := new(big.Int).Sub(tab[i].(*big.Int), new(big.Int).Mul(big.NewInt(slope), new(big.Int).Add(lo, big.NewInt(int64(i)))))
			if len(rs) > 0 && rs[len(rs)-1].d.Cmp(d) == 0 {
				rs[len(rs)-1].to = i
			} else {
				rs = append(rs, run{i, i, d, slope})
			}
			if len(rs) > 300 {
				break
			}
		}
		if len(rs) > 64 && slope != 0 || len(rs) > 300 {
			continue
		}
		mk := func(r run) *Term { return c.Add(c.Scale(v, big.NewInt(r.slope)), c.Big(r.d)) }
		res := mk(rs[len(rs)-1])
		for i := len(rs) - 2; i >= 0; i-- {
			res = c.Ite(c.Le(v, c.Big(new(big.Int).Add(lo, big.NewInt(int64(rs[i].to))))), mk(rs[i]), res)
		}
		return res
	}
	return nil
}
