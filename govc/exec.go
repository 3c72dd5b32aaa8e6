package main

// Symbolic execution of go/ssa functions by path forking.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"maps"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	params []Val
	defers []*deferred
	loop   *loopCtx
}

type deferred struct {
	fn   Val // *VFunc or builtin
	call *ssa.CallCommon
	args []Val
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = maps.Clone(f.env)
	n.defers = append([]*deferred{}, f.defers...)
	return &n
}

const (
	oRet = iota
	oPanic
	oBack
	oExit
)

type Outcome struct {
	kind      int
	st        *State
	val       Val // VTuple for several results
	fr        *Frame
	from, to  *ssa.BasicBlock
	constExit bool
	guardLit  *Term // condition under which the loop was left (literal), for counted loops
}

type Obligation struct {
	Label  string
	Kind   string // ensures, requires, safety, invariant
	Where  string
	Hyps   []*Term
	Goal   *Term
	Status string
	Back   string
	Time   time.Duration
	Model  map[string]string
	SMT    string
	Path   int
}

type Ex struct {
	eng        *Engine
	c          *Ctx
	quick      *Quick
	h          *Harness
	nextRef    int
	obls       []*Obligation
	trivial    int
	silent     int
	rough      int // running only to see what a loop changes
	outerCands map[*VFunc]bool
	leafMemo   map[types.Type][]leaf
	stack      []*ssa.Function
	paths      int
	steps      int
	deadline   time.Time
	unfoldOK   int
	globals    map[*ssa.Global]*Term
	gInit      map[int]*ssa.Global
	gVals      map[int]Val
	used       map[string]bool // models / assumptions used
	inlined    map[string]bool
	params     []namedTerm
	loopSeen   map[string]string
	assumes    int
	reach      []*Term
	nAny       int
	unfolding  int
	modUsed    map[string]bool
	entry      []*State // loop entry states, innermost last
	covers     []cover
	qfacts     int
	objTyp     map[int]types.Type
	labels     map[string]int
	maxMake    *big.Int
	inLoopSpec int
	invLoops   int
	memIDs     map[*Mem]int
	cands      []*VFunc
	candMemo   map[string]bool
	mute       int
}

type cover struct {
	label string
	hyps  []*Term
}

type namedTerm struct {
	name string
	t    *Term
}

type pathLimit struct{ msg string }

func (x *Ex) fnName(f *ssa.Function) string { return f.String() }

func (x *Ex) safety(st *State, cond *Term, msg string) {
	if st.dead {
		return
	}
	switch x.fold(st, cond) {
	case 1:
		if x.silent == 0 {
			x.trivial++
		}
		return
	}
	if x.silent == 0 {
		x.addObl(st, cond, "safety", msg)
	}
	x.fact(st, cond)
}

func (x *Ex) where() string {
	if len(x.stack) == 0 {
		return ""
	}
	return x.stack[len(x.stack)-1].String()
}

func (x *Ex) addObl(st *State, goal *Term, kind, label string) {
	if x.silent > 0 {
		return
	}
	if goal.op == OAnd {
		for _, a := range goal.args {
			x.addObl(st, a, kind, label)
		}
		return
	}
	x.obls = append(x.obls, &Obligation{Label: label, Kind: kind, Where: x.where(), Hyps: st.pc.list(), Goal: goal, Path: x.paths})
}

// ---- running

// callFn runs fn to completion on every path.
func (x *Ex) callFn(st *State, fn *ssa.Function, args []Val, bind []Val) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(unsupported("function without body: " + fn.String()))
	}
	for _, f := range x.stack {
		if f == fn {
			n := 0
			for _, g := range x.stack {
				if g == fn {
					n++
				}
			}
			if n > 40 {
				panic(unsupported("unbounded recursion in " + fn.String()))
			}
		}
	}
	x.inlined[fn.String()] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, params: args}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
	}
	x.stack = append(x.stack, fn)
	var out []Outcome
	depth := len(x.stack)
	x.run(fr, st, fn.Blocks[0], 0, &out)
	x.stack = x.stack[:depth-1]
	return out
}

// protect runs f; it returns a fork request instead of letting it propagate.
func (x *Ex) protect(f func()) (req *forkReq) {
	depth := len(x.stack)
	sil, unf := x.silent, x.unfoldOK
	defer func() {
		if r := recover(); r != nil {
			if fr, ok := r.(forkReq); ok {
				x.stack = x.stack[:depth]
				x.silent, x.unfoldOK = sil, unf
				req = &fr
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (x *Ex) run(fr *Frame, st *State, b *ssa.BasicBlock, i int, out *[]Outcome) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		x.steps++
		if x.steps&1023 == 0 && time.Now().After(x.deadline) {
			panic(pathLimit{"time limit"})
		}
		snap := *st
		ins := b.Instrs[i]
		nobl, ntriv := len(x.obls), x.trivial
		done := false
		req := x.protect(func() {
			switch ins := ins.(type) {
			case *ssa.If:
				done = true
				x.branch(fr, st, b, ins, out)
			case *ssa.Jump:
				done = true
				x.jump(fr, st, b, b.Succs[0], out)
			case *ssa.Return:
				done = true
				var v Val
				if len(ins.Results) == 1 {
					v = x.val(fr, st, ins.Results[0])
				} else {
					t := VTuple{}
					for _, r := range ins.Results {
						t = append(t, x.val(fr, st, r))
					}
					v = t
				}
				x.paths++
				if x.paths > 400000 {
					panic(pathLimit{"too many paths"})
				}
				*out = append(*out, Outcome{kind: oRet, st: st, val: v, fr: fr, from: b})
			case *ssa.Panic:
				done = true
				x.safety(st, x.c.False, "panic")
			case *ssa.Call:
				rs := x.call(fr, st, &ins.Call, ins)
				if len(rs) == 1 {
					*st = *rs[0].st
					fr.env[ins] = rs[0].val
					return
				}
				done = true
				for _, r := range rs {
					f2 := fr.clone()
					f2.env[ins] = r.val
					x.run(f2, r.st, b, i+1, out)
				}
			case *ssa.Defer:
				d := &deferred{call: &ins.Call}
				if !ins.Call.IsInvoke() {
					if _, ok := ins.Call.Value.(*ssa.Builtin); !ok {
						d.fn = x.val(fr, st, ins.Call.Value)
					}
				} else {
					d.fn = x.val(fr, st, ins.Call.Value)
				}
				for _, a := range ins.Call.Args {
					d.args = append(d.args, x.val(fr, st, a))
				}
				fr.defers = append(fr.defers, d)
			case *ssa.RunDefers:
				if len(fr.defers) == 0 {
					return
				}
				d := fr.defers[len(fr.defers)-1]
				rs := x.callVals(st, d.call, d.fn, d.args)
				done = true
				for _, r := range rs {
					f2 := fr.clone()
					f2.defers = f2.defers[:len(f2.defers)-1]
					x.run(f2, r.st, b, i, out)
				}
			default:
				x.simple(fr, st, ins)
			}
		})
		if req != nil {
			// re-execute the instruction under both outcomes of the open condition
			x.obls, x.trivial = x.obls[:nobl], ntriv
			for _, pol := range []*Term{req.cond, x.c.Not(req.cond)} {
				s2 := snap
				x.assume(&s2, pol)
				if !s2.dead {
					x.run(fr.clone(), &s2, b, i, out)
				}
			}
			return
		}
		if done {
			return
		}
	}
}

// counts tells whether a decided exit test of a loop can bound the number of iterations:
// a test of a number or string, not one of what a call returned.
func counts(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.BinOp:
		b, ok := v.X.Type().Underlying().(*types.Basic)
		if !ok {
			return false
		}
		if b.Kind() == types.Bool {
			return counts(v.X) || counts(v.Y)
		}
		return true
	case *ssa.UnOp:
		return counts(v.X)
	case *ssa.Phi:
		return true
	case *ssa.Extract:
		_, ok := v.Tuple.(*ssa.Next)
		return ok
	}
	return false
}

func (x *Ex) branch(fr *Frame, st *State, b *ssa.BasicBlock, ins *ssa.If, out *[]Outcome) {
	cond := x.val(fr, st, ins.Cond).(*Term)
	r := x.fold(st, cond)
	isExit := fr.loop != nil && (!fr.loop.body[b.Succs[0]] || !fr.loop.body[b.Succs[1]])
	if r >= 0 {
		if isExit && counts(ins.Cond) {
			fr.loop = fr.loop.withConst()
		}
		if r == 1 {
			x.jump(fr, st, b, b.Succs[0], out)
		} else {
			x.jump(fr, st, b, b.Succs[1], out)
		}
		return
	}
	nc := x.c.Not(cond)
	t, f := x.feasible(st, cond), x.feasible(st, nc)
	if t && f {
		f2, s2 := fr.clone(), st.clone()
		x.assume(s2, cond)
		x.jump(f2, s2, b, b.Succs[0], out)
		x.assume(st, nc)
		x.jump(fr, st, b, b.Succs[1], out)
	} else if t {
		x.fact(st, cond)
		x.jump(fr, st, b, b.Succs[0], out)
	} else if f {
		x.fact(st, nc)
		x.jump(fr, st, b, b.Succs[1], out)
	}
}

func (x *Ex) jump(fr *Frame, st *State, from, to *ssa.BasicBlock, out *[]Outcome) {
	if st.dead {
		return
	}
	if l := fr.loop; l != nil {
		if to == l.header {
			*out = append(*out, Outcome{kind: oBack, st: st, fr: fr, from: from, to: to, constExit: l.constExit})
			return
		}
		if !l.body[to] {
			*out = append(*out, Outcome{kind: oExit, st: st, fr: fr, from: from, to: to})
			return
		}
	}
	if lp := x.eng.loopsOf(fr.fn)[to]; lp != nil {
		x.loop(fr, st, from, to, lp, out)
		return
	}
	x.enter(fr, st, from, to, nil)
	x.run(fr, st, to, nphi(to), out)
}

func nphi(b *ssa.BasicBlock) int {
	n := 0
	for _, i := range b.Instrs {
		if _, ok := i.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

// enter evaluates the phis of block to when coming from block from.
func (x *Ex) enter(fr *Frame, st *State, from, to *ssa.BasicBlock, override []Val) {
	n := nphi(to)
	if n == 0 {
		return
	}
	vals := make([]Val, n)
	if override != nil {
		copy(vals, override)
	} else {
		for i := 0; i < n; i++ {
			vals[i] = x.phiVal(fr, st, from, to.Instrs[i].(*ssa.Phi))
		}
	}
	for i := 0; i < n; i++ {
		fr.env[to.Instrs[i].(*ssa.Phi)] = vals[i]
	}
}

func (x *Ex) phiVal(fr *Frame, st *State, from *ssa.BasicBlock, phi *ssa.Phi) Val {
	for j, p := range phi.Block().Preds {
		if p == from {
			return x.val(fr, st, phi.Edges[j])
		}
	}
	panic("phi without matching predecessor")
}

// ---- values

func (x *Ex) val(fr *Frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return x.globalPtr(st, v)
	case *ssa.Function:
		return &VFunc{Fn: v}
	case *ssa.Builtin:
		return v
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, fr.fn))
	}
	return r
}

func (x *Ex) constVal(v *ssa.Const) Val {
	t := v.Type()
	if v.Value == nil {
		return x.zero(t)
	}
	switch v.Value.Kind() {
	case constant.Bool:
		return x.c.Bool(constant.BoolVal(v.Value))
	case constant.String:
		return x.c.Str(constant.StringVal(v.Value))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(v.Value)
			return x.c.Flt(fstr(f))
		}
		k, _ := new(big.Int).SetString(v.Value.ExactString(), 10)
		return x.c.Big(k)
	case constant.Float:
		f, _ := constant.Float64Val(v.Value)
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			k, _ := big.NewFloat(f).Int(nil)
			return x.c.Big(k)
		}
		return x.c.Flt(fstr(f))
	}
	panic(unsupported("constant " + v.String()))
}

func (x *Ex) globalPtr(st *State, g *ssa.Global) Val {
	ref, ok := x.globals[g]
	if !ok {
		x.nextRef++
		ref = x.c.Int(int64(x.nextRef))
		x.globals[g] = ref
		x.gInit[x.nextRef] = g
		x.objTyp[x.nextRef] = g.Type().Underlying().(*types.Pointer).Elem()
	}
	return &VPtr{Ref: ref, Elem: g.Type().Underlying().(*types.Pointer).Elem()}
}

// globalInit computes the initial value of a package variable on first use.
func (x *Ex) globalInit(st *State, id int) Val {
	if v, ok := x.gVals[id]; ok {
		return v
	}
	g, ok := x.gInit[id]
	if !ok {
		return nil
	}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	x.gVals[id] = x.zero(et)
	init := g.Pkg.Func("init")
	if init == nil {
		return x.gVals[id]
	}
	// backward slice of the package initialiser from the stores into g
	var base func(v ssa.Value) ssa.Value
	base = func(v ssa.Value) ssa.Value {
		switch v := v.(type) {
		case *ssa.FieldAddr:
			return base(v.X)
		case *ssa.IndexAddr:
			return base(v.X)
		case *ssa.Slice:
			return base(v.X)
		}
		return v
	}
	need := map[ssa.Instruction]bool{}
	allocs := map[ssa.Value]bool{}
	var addV func(v ssa.Value)
	addV = func(v ssa.Value) {
		if i, ok := v.(ssa.Instruction); ok && !need[i] {
			need[i] = true
			switch v.(type) {
			case *ssa.Alloc, *ssa.MakeMap:
				allocs[v] = true
			}
			var buf [10]*ssa.Value
			for _, o := range i.Operands(buf[:0]) {
				if *o != nil {
					addV(*o)
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, b := range init.Blocks {
			for _, i := range b.Instrs {
				if u, ok := i.(*ssa.MapUpdate); ok && !need[u] && allocs[u.Map] {
					need[u] = true
					addV(u.Key)
					addV(u.Value)
					ch = true
				}
				s, ok := i.(*ssa.Store)
				if !ok || need[s] {
					continue
				}
				bs := base(s.Addr)
				if bs == g || allocs[bs] {
					need[s] = true
					addV(s.Addr)
					addV(s.Val)
					ch = true
				}
			}
		}
	}
	fr := &Frame{fn: init, env: map[ssa.Value]Val{}}
	tmp := &State{heap: nil}
	x.silent++
	defer func() { x.silent-- }()
	// objects allocated by initialisers become global objects
	before := x.nextRef
	x.stack = append(x.stack, init)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(unsup); ok {
					x.gVals[id] = x.fresh(tmp, et, "global:"+g.Name())
					return
				}
				panic(r)
			}
		}()
		for _, b := range init.Blocks {
			for _, i := range b.Instrs {
				if !need[i] {
					continue
				}
				switch i := i.(type) {
				case *ssa.Call:
					rs := x.call(fr, tmp, &i.Call, i)
					if len(rs) != 1 {
						panic(unsupported("branching initialiser of " + g.Name()))
					}
					*tmp = *rs[0].st
					fr.env[i] = rs[0].val
				case *ssa.Store:
					p := x.val(fr, tmp, i.Addr).(*VPtr)
					x.store(tmp, p, x.val(fr, tmp, i.Val))
				default:
					x.simple(fr, tmp, i)
				}
			}
		}
		if v := tmp.heap.get(id); v != nil {
			x.gVals[id] = v
		}
	}()
	x.stack = x.stack[:len(x.stack)-1]
	tmp.heap.each(func(k int, v interface{}) {
		if k > before {
			x.gVals[k] = v
		}
	})
	return x.gVals[id]
}

// ---- arithmetic

func (x *Ex) inRange(st *State, t *Term, lo, hi *big.Int) bool {
	l, h := x.bounds(st, t)
	lok, hok := l != nil && l.Cmp(lo) >= 0, h != nil && h.Cmp(hi) <= 0
	if lok && hok {
		return true
	}
	if l != nil && l.Cmp(hi) > 0 || h != nil && h.Cmp(lo) < 0 {
		return false
	}
	c := x.c
	var g []*Term
	if !lok {
		g = append(g, c.Ge(t, c.Big(lo)))
	}
	if !hok {
		g = append(g, c.Le(t, c.Big(hi)))
	}
	goal := c.And(g...)
	return x.quick.Check(Query{Hyps: x.hyps(st), Goal: goal}) == "unsat"
}

// wrap reduces a mathematical integer to the range of type t.
func (x *Ex) wrap(st *State, v *Term, t types.Type) *Term {
	if isMathInt(t) {
		return v
	}
	bits, signed, ok := intInfo(t)
	if !ok {
		return v
	}
	lo, hi := intRange(bits, signed)
	if x.inRange(st, v, lo, hi) {
		return v
	}
	c := x.c
	if v.op == OIte {
		return c.Ite(v.args[0], x.wrap(st, v.args[1], t), x.wrap(st, v.args[2], t))
	}
	m := c.Big(pow2(bits))
	if !signed {
		return c.Mod(v, m)
	}
	h := c.Big(pow2(bits - 1))
	return c.Sub(c.Mod(c.Add(v, h), m), h)
}

func (x *Ex) nonneg(st *State, t *Term) bool {
	l, _ := x.bounds(st, t)
	if l != nil && l.Sign() >= 0 {
		return true
	}
	return x.entails(st, x.c.Ge(t, x.c.Int(0)))
}

// truncDiv is Go's quotient.
func (x *Ex) truncDiv(st *State, a, b *Term) *Term {
	c := x.c
	if b.isNum() {
		if b.k.Sign() < 0 {
			return c.Neg(x.truncDiv(st, a, c.Neg(b)))
		}
		if x.nonneg(st, a) {
			return c.Div(a, b)
		}
		return c.Ite(c.Ge(a, c.Int(0)), c.Div(a, b), c.Neg(c.Div(c.Neg(a), b)))
	}
	na, nb := x.nonneg(st, a), x.nonneg(st, b)
	if na && nb {
		return c.Div(a, b)
	}
	abs := func(t *Term, nn bool) *Term {
		if nn {
			return t
		}
		return c.Ite(c.Ge(t, c.Int(0)), t, c.Neg(t))
	}
	q := c.Div(abs(a, na), abs(b, nb))
	pos := c.Eq(c.Bool(true), c.True)
	if !na || !nb {
		sa, sb := c.Ge(a, c.Int(0)), c.Ge(b, c.Int(0))
		pos = c.Eq(sa, sb)
	}
	return c.Ite(pos, q, c.Neg(q))
}

// trailing zeros known for a term
func tz(t *Term) uint {
	switch t.op {
	case OConst:
		if t.k.Sign() == 0 {
			return 64
		}
		return t.k.TrailingZeroBits()
	case OLin:
		n := uint(64)
		if t.k.Sign() != 0 {
			n = t.k.TrailingZeroBits()
		}
		for i, a := range t.args {
			z := new(big.Int).Abs(t.coef[i]).TrailingZeroBits() + tz(a)
			n = min(n, z)
		}
		return n
	case OMul:
		n := uint(0)
		for _, a := range t.args {
			n += tz(a)
		}
		return n
	}
	return 0
}

func (x *Ex) bitop(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	c := x.c
	bits, signed, _ := intInfo(t)
	if a.isNum() && !b.isNum() {
		if op != token.AND_NOT {
			a, b = b, a
		}
	}
	if a.isNum() && b.isNum() {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.k, b.k)
		case token.OR:
			r.Or(a.k, b.k)
		case token.XOR:
			r.Xor(a.k, b.k)
		case token.AND_NOT:
			r.AndNot(a.k, b.k)
		}
		return x.wrap(st, c.Big(r), t)
	}
	low := func(n uint) *Term { return c.Mod(a, c.Big(pow2(n))) }
	if b.isNum() {
		k := b.k
		if op == token.AND_NOT {
			op, k = token.AND, new(big.Int).Not(k)
		}
		switch op {
		case token.AND:
			if k.Sign() >= 0 {
				// contiguous mask 2^n - 2^m
				if k.Sign() == 0 {
					return c.Int(0)
				}
				m := k.TrailingZeroBits()
				s := new(big.Int).Rsh(k, m)
				s1 := new(big.Int).Add(s, b1)
				if s1.TrailingZeroBits() == uint(s1.BitLen()-1) {
					n := m + uint(s.BitLen())
					return c.Sub(low(n), low(m))
				}
			} else {
				// ...1110000: clears the low bits
				nk := new(big.Int).Not(k) // 2^m - 1
				n1 := new(big.Int).Add(nk, b1)
				if n1.TrailingZeroBits() == uint(n1.BitLen()-1) {
					return c.Sub(a, low(uint(n1.BitLen()-1)))
				}
			}
			if !signed && k.Sign() > 0 {
				// general mask: sum of its contiguous pieces
				r := c.Int(0)
				kk := new(big.Int).Set(k)
				for kk.Sign() > 0 {
					m := kk.TrailingZeroBits()
					n := m
					for kk.Bit(int(n)) == 1 {
						n++
					}
					r = c.Add(r, c.Sub(low(n), low(m)))
					for i := m; i < n; i++ {
						kk.SetBit(kk, int(i), 0)
					}
				}
				return r
			}
		case token.OR:
			// a | k = a + k - (a & k)
			if k.Sign() >= 0 {
				return c.Sub(c.Add(a, b), x.bitop(st, token.AND, a, b, t))
			}
		case token.XOR:
			if k.Sign() >= 0 {
				return c.Sub(c.Add(a, b), c.Scale(x.bitop(st, token.AND, a, b, t), big.NewInt(2)))
			}
		}
	}
	if op == token.OR || op == token.XOR {
		// disjoint operands
		for i := 0; i < 2; i++ {
			z := tz(b)
			l, h := x.ivOf(st, a)
			if l != nil && l.Sign() >= 0 && h != nil && h.Cmp(pow2(z)) < 0 {
				return c.Add(a, b)
			}
			if z > 0 && z < 64 && x.inRange(st, a, b0, new(big.Int).Sub(pow2(z), b1)) {
				return c.Add(a, b)
			}
			a, b = b, a
		}
		if a == b {
			if op == token.OR {
				return a
			}
			return c.Int(0)
		}
	}
	if op == token.AND && a == b {
		return a
	}
	// exact bitwise expansion for small unsigned operands
	_, ha := x.ivOf(st, a)
	_, hb := x.ivOf(st, b)
	if ha != nil && hb != nil && ha.BitLen() <= 16 && hb.BitLen() <= 16 && x.nonneg(st, a) && x.nonneg(st, b) {
		n := uint(min(ha.BitLen(), hb.BitLen()))
		and := c.Int(0)
		bit := func(t *Term, i uint) *Term {
			return c.Mod(c.Div(t, c.Big(pow2(i))), c.Int(2))
		}
		for i := uint(0); i < n; i++ {
			and = c.Add(and, c.Ite(c.And(c.Eq(bit(a, i), c.Int(1)), c.Eq(bit(b, i), c.Int(1))), c.Big(pow2(i)), c.Int(0)))
		}
		switch op {
		case token.AND:
			return and
		case token.OR:
			return c.Sub(c.Add(a, b), and)
		case token.XOR:
			return c.Sub(c.Add(a, b), c.Scale(and, big.NewInt(2)))
		case token.AND_NOT:
			return c.Sub(a, and)
		}
	}
	lo, hi := intRange(bits, signed)
	n := fmt.Sprintf("bit%s%d%v", map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot"}[op], bits, signed)
	c.appLo[n], c.appHi[n] = lo, hi
	r := c.App(n, SInt, a, b)
	if x.nonneg(st, a) && x.nonneg(st, b) {
		switch op {
		case token.AND:
			x.fact(st, c.And(c.Ge(r, c.Int(0)), c.Le(r, a), c.Le(r, b)))
		case token.OR:
			x.fact(st, c.And(c.Ge(r, a), c.Ge(r, b), c.Le(r, c.Add(a, b))))
		}
	}
	return r
}

func (x *Ex) binop(st *State, op token.Token, a, b Val, ta, tb, tr types.Type) Val {
	c := x.c
	switch op {
	case token.EQL, token.NEQ:
		r := x.equal(st, a, b, ta, tb)
		if op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported(fmt.Sprintf("binop %s on %T, %T", op, a, b)))
	}
	switch p.sort {
	case SStr:
		switch op {
		case token.ADD:
			return c.Cat(p, q)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if p.isConst() && q.isConst() {
				return c.Bool(cmpRes(op, strings.Compare(p.name, q.name)))
			}
			switch op {
			case token.LSS:
				return c.App("str.lt", SBool, p, q)
			case token.GTR:
				return c.App("str.lt", SBool, q, p)
			case token.LEQ:
				return c.Not(c.App("str.lt", SBool, q, p))
			default:
				return c.Not(c.App("str.lt", SBool, p, q))
			}
		}
	case SFlt:
		return x.floatop(st, op, p, q, ta)
	case SBool:
		switch op {
		case token.AND, token.LAND:
			return c.And(p, q)
		case token.OR, token.LOR:
			return c.Or(p, q)
		}
	case SInt:
		switch op {
		case token.ADD:
			return x.wrap(st, c.Add(p, q), tr)
		case token.SUB:
			return x.wrap(st, c.Sub(p, q), tr)
		case token.MUL:
			return x.wrap(st, c.Mul(p, q), tr)
		case token.QUO:
			x.safety(st, c.Not(c.Eq(q, c.Int(0))), "division by zero")
			if st.dead {
				return p
			}
			return x.wrap(st, x.truncDiv(st, p, q), tr)
		case token.REM:
			x.safety(st, c.Not(c.Eq(q, c.Int(0))), "division by zero")
			if st.dead {
				return p
			}
			return c.Sub(p, c.Mul(q, x.truncDiv(st, p, q)))
		case token.LSS:
			return c.Lt(p, q)
		case token.LEQ:
			return c.Le(p, q)
		case token.GTR:
			return c.Gt(p, q)
		case token.GEQ:
			return c.Ge(p, q)
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return x.bitop(st, op, p, q, tr)
		case token.SHL, token.SHR:
			k, ok := q.i64()
			if !ok {
				l, h := x.ivOf(st, q)
				if l != nil && h != nil && l.Cmp(h) == 0 {
					k, ok = l.Int64(), true
				}
			}
			if !ok {
				panic(unsupported("shift by a variable amount"))
			}
			if k < 0 {
				x.safety(st, c.False, "negative shift")
				return p
			}
			bits, _, _ := intInfo(tr)
			if op == token.SHL {
				if uint(k) >= bits {
					return c.Int(0)
				}
				return x.wrap(st, c.Scale(p, pow2(uint(k))), tr)
			}
			return c.Div(p, c.Big(pow2(uint(min(k, 200)))))
		}
	}
	panic(unsupported("binop " + op.String()))
}

func cmpRes(op token.Token, k int) bool {
	switch op {
	case token.LSS:
		return k < 0
	case token.LEQ:
		return k <= 0
	case token.GTR:
		return k > 0
	case token.GEQ:
		return k >= 0
	}
	return false
}

// equal compares two values like Go's ==.
func (x *Ex) equal(st *State, a, b Val, ta, tb types.Type) *Term {
	c := x.c
	_, ia := ta.Underlying().(*types.Interface)
	_, ib := tb.Underlying().(*types.Interface)
	if ia && !ib {
		b = &VIface{T: tb, V: b}
		tb = ta
	} else if ib && !ia {
		a = &VIface{T: ta, V: a}
		ta = tb
	}
	switch p := a.(type) {
	case *VSlice:
		// comparison with nil only
		q := b.(*VSlice)
		if k, ok := q.Ref.i64(); ok && k == 0 {
			if p.MaybeNil != nil {
				return c.And(c.Eq(p.Len, c.Int(0)), p.MaybeNil)
			}
			return c.Eq(p.Ref, c.Int(0))
		}
		return c.Eq(q.Ref, c.Int(0))
	case *VPtr:
		q, ok := b.(*VPtr)
		if !ok {
			break
		}
		if len(p.Path) == 0 && len(q.Path) == 0 {
			return c.Eq(p.Ref, q.Ref)
		}
		if len(p.Path) != len(q.Path) {
			return c.False
		}
		r := c.Eq(p.Ref, q.Ref)
		for i := range p.Path {
			if p.Path[i].idx != nil && q.Path[i].idx != nil {
				r = c.And(r, c.Eq(p.Path[i].idx, q.Path[i].idx))
			} else if p.Path[i].field != q.Path[i].field {
				return c.False
			}
		}
		return r
	case *VFunc:
		return c.False // only comparable with nil
	case *VIface:
		if q, ok := b.(*VIface); ok {
			if p.T == nil || q.T == nil {
				return c.Bool(p.T == nil && q.T == nil)
			}
			if !types.Identical(p.T, q.T) {
				return c.False
			}
			return x.equal(st, p.V, q.V, p.T, q.T)
		}
	}
	la, lb := x.flatten(st, a, ta), x.flatten(st, b, tb)
	if len(la) != len(lb) {
		panic(fmt.Sprintf("equal: %d/%d leaves (%s, %s)", len(la), len(lb), ta, tb))
	}
	var cs []*Term
	for i := range la {
		cs = append(cs, c.Eq(la[i], lb[i]))
	}
	return c.And(cs...)
}

// ---- simple instructions

func (x *Ex) simple(fr *Frame, st *State, ins ssa.Instruction) {
	c := x.c
	set := func(v Val) { fr.env[ins.(ssa.Value)] = v }
	get := func(v ssa.Value) Val { return x.val(fr, st, v) }
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := i.Type().Underlying().(*types.Pointer).Elem()
		ref := x.alloc(st, x.zero(et))
		x.objTyp[x.nextRef] = et
		set(&VPtr{Ref: ref, Elem: et})
	case *ssa.BinOp:
		set(x.binop(st, i.Op, get(i.X), get(i.Y), i.X.Type(), i.Y.Type(), i.Type()))
	case *ssa.UnOp:
		v := get(i.X)
		switch i.Op {
		case token.MUL:
			set(x.load(st, v.(*VPtr)))
		case token.SUB:
			t := v.(*Term)
			if t.sort == SFlt {
				set(x.floatop(st, token.SUB, c.Flt("0"), t, i.Type()))
			} else {
				set(x.wrap(st, c.Neg(t), i.Type()))
			}
		case token.NOT:
			set(c.Not(v.(*Term)))
		case token.XOR:
			bits, signed, _ := intInfo(i.Type())
			t := v.(*Term)
			if signed {
				set(c.Sub(c.Int(-1), t))
			} else {
				_, hi := intRange(bits, false)
				set(c.Sub(c.Big(hi), t))
			}
		default:
			panic(unsupported("unary " + i.Op.String()))
		}
	case *ssa.ChangeType:
		set(x.retype(get(i.X), i.Type()))
	case *ssa.ChangeInterface:
		set(get(i.X))
	case *ssa.Convert:
		set(x.convert(st, get(i.X), i.X.Type(), i.Type()))
	case *ssa.MakeInterface:
		set(&VIface{T: i.X.Type(), V: get(i.X)})
	case *ssa.MakeClosure:
		f := &VFunc{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.Bind = append(f.Bind, get(b))
		}
		set(f)
	case *ssa.MakeSlice:
		n, k := get(i.Len).(*Term), get(i.Cap).(*Term)
		x.safety(st, c.And(c.Ge(n, c.Int(0)), c.Le(n, k)), "make: invalid length")
		if st.dead {
			return
		}
		if x.maxMake != nil {
			x.safety(st, c.Le(k, c.Big(x.maxMake)), "make: length within the address space")
		}
		et := i.Type().Underlying().(*types.Slice).Elem()
		ref := x.alloc(st, &VArr{Elem: et, M: &Mem{zero: true}})
		s := &VSlice{Ref: ref, Off: c.Int(0), Len: n, Cap: k, Elem: et}
		if z, ok := n.i64(); ok && z == 0 {
			s.View = c.App("seq.nil", SSeq)
		}
		set(s)
	case *ssa.MakeMap:
		set(&VMapRef{x.alloc(st, &VMap{})})
	case *ssa.FieldAddr:
		p := get(i.X).(*VPtr)
		x.nilCheck(st, p.Ref)
		if st.dead {
			return
		}
		root, arr := p.root()
		ft := i.Type().Underlying().(*types.Pointer).Elem()
		set(&VPtr{Ref: p.Ref, Path: append(append([]sel{}, p.Path...), sel{field: i.Field}), Elem: ft, Root: root, Arr: arr})
	case *ssa.Field:
		switch v := get(i.X).(type) {
		case *VStruct:
			set(v.F[i.Field])
		default:
			panic(unsupported(fmt.Sprintf("field of %T", v)))
		}
	case *ssa.IndexAddr:
		idx := get(i.Index).(*Term)
		et := i.Type().Underlying().(*types.Pointer).Elem()
		switch v := get(i.X).(type) {
		case *VSlice:
			x.safety(st, c.And(c.Ge(idx, c.Int(0)), c.Lt(idx, v.Len)), "index out of range")
			if st.dead {
				return
			}
			p := &VPtr{Ref: v.Ref, Path: append(append([]sel{}, v.Path...), sel{idx: c.Add(v.Off, idx)}), Elem: et, Root: v.Root}
			if v.Root == nil {
				p.Root, p.Arr = v.Elem, true
			}
			set(p)
		case *VPtr:
			at := v.Elem.Underlying().(*types.Array)
			x.nilCheck(st, v.Ref)
			x.safety(st, c.And(c.Ge(idx, c.Int(0)), c.Lt(idx, c.Int(at.Len()))), "index out of range")
			if st.dead {
				return
			}
			root, arr := v.root()
			set(&VPtr{Ref: v.Ref, Path: append(append([]sel{}, v.Path...), sel{idx: idx}), Elem: et, Root: root, Arr: arr})
		default:
			panic(unsupported(fmt.Sprintf("IndexAddr on %T", v)))
		}
	case *ssa.Index:
		idx := get(i.Index).(*Term)
		switch v := get(i.X).(type) {
		case *VArr:
			at := i.X.Type().Underlying().(*types.Array)
			x.safety(st, c.And(c.Ge(idx, c.Int(0)), c.Lt(idx, c.Int(at.Len()))), "index out of range")
			if st.dead {
				return
			}
			set(x.memRead(st, v.M, idx, v.Elem))
		case *Term: // string
			set(x.strIndex(st, v, idx))
		default:
			panic(unsupported(fmt.Sprintf("Index on %T", v)))
		}
	case *ssa.Lookup:
		switch v := get(i.X).(type) {
		case *Term:
			set(x.strIndex(st, v, get(i.Index).(*Term)))
		case *VMapRef:
			x.mapLookup(fr, st, i, v, get(i.Index))
		default:
			panic(unsupported("lookup"))
		}
	case *ssa.MapUpdate:
		x.mapUpdate(st, get(i.Map).(*VMapRef), get(i.Key), i.Key.Type(), get(i.Value))
	case *ssa.Slice:
		set(x.sliceOp(fr, st, i))
	case *ssa.Store:
		x.store(st, get(i.Addr).(*VPtr), get(i.Val))
	case *ssa.TypeAssert:
		set(x.typeAssert(st, get(i.X), i))
	case *ssa.Extract:
		set(get(i.Tuple).(VTuple)[i.Index])
	case *ssa.Range:
		if t, ok := get(i.X).(*Term); ok && t.isConst() {
			set(&rangeIter{s: t.name, ref: x.alloc(st, c.Int(0))})
			return
		}
		panic(unsupported("range over " + i.X.Type().String()))
	case *ssa.Next:
		it, ok := get(i.Iter).(*rangeIter)
		if !ok {
			panic(unsupported("next"))
		}
		id, _ := it.ref.i64()
		pos, _ := st.heap.get(int(id)).(*Term).i64()
		n := 0
		for k, r := range it.s[pos:] {
			if k == 0 {
				n = len(string(r))
				st.heap = st.heap.put(int(id), c.Int(pos+int64(n)))
				set(VTuple{c.True, c.Int(pos), c.Int(int64(r))})
				return
			}
		}
		set(VTuple{c.False, c.Int(0), c.Int(0)})
	default:
		panic(unsupported(fmt.Sprintf("instruction %T (%s)", ins, ins)))
	}
}

type rangeIter struct {
	s   string
	ref *Term
}

func (x *Ex) retype(v Val, t types.Type) Val {
	switch v := v.(type) {
	case *VSlice:
		n := *v
		if s, ok := t.Underlying().(*types.Slice); ok {
			n.Elem = s.Elem()
		}
		return &n
	case *VPtr:
		n := *v
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if n.Root == nil {
				n.Root = n.Elem
			}
			n.Elem = p.Elem()
		}
		return &n
	}
	return v
}

func (x *Ex) strIndex(st *State, s, idx *Term) Val {
	c := x.c
	x.safety(st, c.And(c.Ge(idx, c.Int(0)), c.Lt(idx, c.StrLen(s))), "string index out of range")
	if k, ok := idx.i64(); ok && s.isConst() && k >= 0 && int(k) < len(s.name) {
		return c.Int(int64(s.name[k]))
	}
	c.appLo["str.at"], c.appHi["str.at"] = b0, big.NewInt(255)
	return c.App("str.at", SInt, s, idx)
}

func (x *Ex) sliceOp(fr *Frame, st *State, i *ssa.Slice) Val {
	c := x.c
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.val(fr, st, v).(*Term)
	}
	lo, hi, mx := opt(i.Low), opt(i.High), opt(i.Max)
	if lo == nil {
		lo = c.Int(0)
	}
	switch v := x.val(fr, st, i.X).(type) {
	case *Term: // string
		n := c.StrLen(v)
		if hi == nil {
			hi = n
		}
		x.safety(st, c.And(c.Ge(lo, c.Int(0)), c.Le(lo, hi), c.Le(hi, n)), "slice bounds out of range")
		l, ok1 := lo.i64()
		h, ok2 := hi.i64()
		if ok1 && ok2 && v.isConst() && l <= h && int(h) <= len(v.name) {
			return c.Str(v.name[l:h])
		}
		if ok1 && l == 0 && hi == n {
			return v
		}
		return c.App("str.sub", SStr, v, lo, hi)
	case *VSlice:
		if hi == nil {
			hi = v.Len
		}
		kc := v.Cap
		if mx != nil {
			kc = mx
		}
		x.safety(st, c.And(c.Ge(lo, c.Int(0)), c.Le(lo, hi), c.Le(hi, kc), c.Le(kc, v.Cap)), "slice bounds out of range")
		if st.dead {
			return v
		}
		r := &VSlice{Ref: v.Ref, Path: v.Path, Root: v.Root, Off: c.Add(v.Off, lo), Len: c.Sub(hi, lo), Cap: c.Sub(kc, lo), Elem: v.Elem}
		if lo.isNum() && lo.k.Sign() == 0 && hi == v.Len {
			r.View, r.ViewMem = v.View, v.ViewMem
		}
		if n, ok := r.Len.i64(); ok && n == 0 {
			r.View = c.App("seq.nil", SSeq)
		}
		return r
	case *VPtr:
		at := v.Elem.Underlying().(*types.Array)
		n := c.Int(at.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		x.nilCheck(st, v.Ref)
		x.safety(st, c.And(c.Ge(lo, c.Int(0)), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, n)), "slice bounds out of range")
		if st.dead {
			return v
		}
		root, arr := v.root()
		if arr {
			panic(unsupported("slicing an array inside a slice"))
		}
		return &VSlice{Ref: v.Ref, Path: v.Path, Root: root, Off: lo, Len: c.Sub(hi, lo), Cap: c.Sub(mx, lo), Elem: at.Elem()}
	}
	panic(unsupported("slice operation"))
}

func (x *Ex) convert(st *State, v Val, from, to types.Type) Val {
	c := x.c
	fu, tu := from.Underlying(), to.Underlying()
	if isMathInt(to) || isMathInt(from) {
		return x.wrap(st, v.(*Term), to)
	}
	if t, ok := v.(*Term); ok {
		switch t.sort {
		case SInt:
			if _, _, ok := intInfo(to); ok {
				return x.wrap(st, t, to)
			}
			if b, ok := tu.(*types.Basic); ok {
				if b.Info()&types.IsFloat != 0 {
					return x.itof(st, t, b.Kind())
				}
				if b.Info()&types.IsString != 0 {
					if k, ok := t.i64(); ok {
						return c.Str(string(rune(k)))
					}
					return c.App("str.rune", SStr, t)
				}
			}
		case SFlt:
			if _, _, ok := intInfo(to); ok {
				return x.ftoi(st, t, to)
			}
			if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				return x.fconv(t, b.Kind())
			}
		case SStr:
			if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return t
			}
			if s, ok := tu.(*types.Slice); ok {
				n := c.StrLen(t)
				x.fact(st, c.Ge(n, c.Int(0)))
				var m *Mem
				if t.isConst() {
					var l []Val
					for i := 0; i < len(t.name); i++ {
						l = append(l, c.Int(int64(t.name[i])))
					}
					m = &Mem{list: l}
					if len(l) == 0 {
						m = &Mem{zero: true}
					}
				} else {
					m = &Mem{prev: &Mem{zero: true}, kind: 2, lo: c.Int(0), hi: n, gen: func(x *Ex, st *State, i *Term) Val {
						x.c.appLo["str.at"], x.c.appHi["str.at"] = b0, big.NewInt(255)
						return x.c.App("str.at", SInt, t, i)
					}}
				}
				if eb, ok := s.Elem().Underlying().(*types.Basic); !ok || eb.Kind() != types.Uint8 {
					panic(unsupported("string to []rune"))
				}
				return &VSlice{Ref: x.alloc(st, &VArr{Elem: s.Elem(), M: m}), Off: c.Int(0), Len: n, Cap: n, Elem: s.Elem(), View: c.App("seq.bytes", SSeq, t), ViewMem: m}
			}
		}
	}
	if s, ok := v.(*VSlice); ok {
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return x.bytesToStr(st, s)
		}
	}
	if p, ok := v.(*VPtr); ok {
		if tp, ok := tu.(*types.Pointer); ok && p.Elem != nil && !sameLayout(p.Elem, tp.Elem(), 0) {
			panic(unsupported(fmt.Sprintf("cast of a pointer to %s to one to %s, which is laid out differently", p.Elem, tp.Elem())))
		}
		return x.retype(p, to)
	}
	_ = fu
	panic(unsupported(fmt.Sprintf("convert %s to %s", from, to)))
}

// sameLayout tells whether the fields of two types agree one by one.
func sameLayout(a, b types.Type, depth int) bool {
	if types.Identical(a, b) {
		return true
	}
	if depth > 4 {
		return false
	}
	sa, ok1 := a.Underlying().(*types.Struct)
	sb, ok2 := b.Underlying().(*types.Struct)
	if !ok1 || !ok2 {
		return types.Identical(a.Underlying(), b.Underlying())
	}
	if sa.NumFields() != sb.NumFields() {
		return false
	}
	for i := 0; i < sa.NumFields(); i++ {
		if !sameLayout(sa.Field(i).Type(), sb.Field(i).Type(), depth+1) {
			return false
		}
	}
	return true
}

// bytesToStr is string(b).
func (x *Ex) bytesToStr(st *State, s *VSlice) *Term {
	c := x.c
	if k, ok := s.Len.i64(); ok && k == 0 {
		return c.Str("")
	}
	a := x.sliceArr(st, s)
	if s.View != nil && s.ViewMem == a.M && s.View.op == OApp && s.View.name == "seq.bytes" {
		return s.View.args[0]
	}
	if n, ok := s.Len.i64(); ok && n <= 64 {
		var vs []*Term
		all := true
		for i := int64(0); i < n; i++ {
			t := x.memRead(st, a.M, c.AddK(s.Off, i), s.Elem).(*Term)
			all = all && t.isNum()
			vs = append(vs, t)
		}
		if all {
			b := make([]byte, n)
			for i, t := range vs {
				b[i] = byte(t.k.Int64())
			}
			return c.Str(string(b))
		}
		// str.at(s, 0..n-1) of a string of length n
		if vs[0].op == OApp && vs[0].name == "str.at" {
			src := vs[0].args[0]
			ok := true
			for i, t := range vs {
				if !(t.op == OApp && t.name == "str.at" && t.args[0] == src && t.args[1] == c.Int(int64(i))) {
					ok = false
				}
			}
			if ok && x.entails(st, c.Eq(c.StrLen(src), c.Int(n))) {
				return src
			}
		}
		return c.App(fmt.Sprintf("str.of%d", n), SStr, vs...)
	}
	return c.Var("str.ofbytes", SStr, nil, nil)
}

// ---- interfaces

func (c *Ctx) tagRaw(t *Term) *Term {
	if t.name == "ifc.nil" {
		return c.Int(0)
	}
	return c.Int(c.tagNames[strings.TrimPrefix(t.name, "box:")])
}

func (c *Ctx) tagOf(t *Term) *Term {
	if isBox(t) {
		return c.tagRaw(t)
	}
	if t.op == OIte {
		return c.Ite(t.args[0], c.tagOf(t.args[1]), c.tagOf(t.args[2]))
	}
	c.appLo["tagof"] = b0
	return c.App("tagof", SInt, t)
}

func (x *Ex) ifaceTerm(st *State, v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *VIface:
		return x.box(st, v)
	}
	panic(fmt.Sprintf("ifaceTerm %T", v))
}

func (x *Ex) isNilIface(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return x.c.Eq(x.c.tagOf(v), x.c.Int(0))
	case *VIface:
		return x.c.Bool(v.T == nil)
	}
	panic("isNilIface")
}

// unbox extracts the payload of an interface term known to have dynamic type t.
func (x *Ex) unbox(st *State, v *Term, t types.Type) Val {
	name := x.typeName(t)
	x.typeID(t)
	var get func(v *Term, i int, l leaf) *Term
	get = func(v *Term, i int, l leaf) *Term {
		if v.op == OIte {
			return x.c.Ite(v.args[0], get(v.args[1], i, l), get(v.args[2], i, l))
		}
		if v.op == OApp && v.name == "box:"+name {
			return v.args[i]
		}
		n := unboxName(name, i)
		if l.lo != nil {
			x.c.appLo[n] = l.lo
		}
		if l.hi != nil {
			x.c.appHi[n] = l.hi
		}
		return x.c.App(n, l.sort, v)
	}
	var ls []*Term
	for i, l := range x.leaves(t) {
		ls = append(ls, get(v, i, l))
	}
	r, _ := x.unflatten(st, t, ls)
	x.wellTyped(st, r, t)
	return r
}

func (x *Ex) typeAssert(st *State, v Val, i *ssa.TypeAssert) Val {
	c := x.c
	_, toIface := i.AssertedType.Underlying().(*types.Interface)
	var ok bool
	var res Val
	if k, isK := v.(*VIface); isK {
		if k.T == nil {
			ok = false
		} else if toIface {
			ok = types.Implements(k.T, i.AssertedType.Underlying().(*types.Interface))
			res = v
		} else {
			ok = types.Identical(k.T, i.AssertedType)
			res = k.V
		}
	} else {
		t := v.(*Term)
		if t.op == OIte { // resolve choices between boxes first
			if x.decide(st, t.args[0]) {
				v = x.unboxKnown(st, t.args[1])
			} else {
				v = x.unboxKnown(st, t.args[2])
			}
			return x.typeAssert(st, v, i)
		}
		var cond *Term
		if toIface {
			it := i.AssertedType.Underlying().(*types.Interface)
			if it.NumMethods() == 0 {
				cond = c.Not(c.Eq(c.tagOf(t), c.Int(0)))
			} else {
				// every named static interface type implements itself
				cond = c.And(c.Not(c.Eq(c.tagOf(t), c.Int(0))), c.App("impl:"+tstr(i.AssertedType), SBool, c.tagOf(t)))
				if st2, ok := i.X.Type().Underlying().(*types.Interface); ok && types.Implements(st2, it) {
					cond = c.Not(c.Eq(c.tagOf(t), c.Int(0)))
				}
			}
		} else {
			cond = c.Eq(c.tagOf(t), x.typeID(i.AssertedType))
		}
		if i.CommaOk {
			ok = x.decide(st, cond)
		} else {
			x.safety(st, cond, "type assertion")
			ok = true
			if st.dead {
				return x.zero(i.AssertedType)
			}
		}
		if ok {
			if toIface {
				res = v
			} else {
				res = x.unbox(st, t, i.AssertedType)
			}
		}
	}
	if i.CommaOk {
		if !ok {
			return VTuple{x.zero(i.AssertedType), c.False}
		}
		return VTuple{res, c.True}
	}
	if !ok {
		x.safety(st, c.False, "type assertion")
		return x.zero(i.AssertedType)
	}
	return res
}

// ---- maps with known keys

func (x *Ex) mapLookup(fr *Frame, st *State, i *ssa.Lookup, m *VMapRef, key Val) {
	c := x.c
	mt := i.X.Type().Underlying().(*types.Map)
	set := func(v Val, ok *Term) {
		if i.CommaOk {
			fr.env[i] = VTuple{v, ok}
		} else {
			fr.env[i] = v
		}
	}
	id, isC := m.Ref.i64()
	if !isC {
		panic(unsupported("lookup in a symbolic map"))
	}
	if id == 0 {
		set(x.zero(mt.Elem()), c.False)
		return
	}
	o := x.mapObj(st, int(id))
	ks := x.flatten(st, key, i.Index.Type())
	if len(ks) != 1 {
		panic(unsupported("composite map key"))
	}
	for j := len(o.Keys) - 1; j >= 0; j-- {
		if x.decide(st, c.Eq(o.Keys[j], ks[0])) {
			set(o.Vals[j], c.True)
			return
		}
	}
	set(x.zero(mt.Elem()), c.False)
}

func (x *Ex) mapObj(st *State, id int) *VMap {
	v := st.heap.get(id)
	if v == nil {
		v = x.gVals[id]
	}
	if m, ok := v.(*VMap); ok {
		return m
	}
	panic(unsupported("unknown map"))
}

func (x *Ex) mapUpdate(st *State, m *VMapRef, key Val, kt types.Type, v Val) {
	id, isC := m.Ref.i64()
	if !isC || id == 0 {
		panic(unsupported("update of a symbolic map"))
	}
	o := x.mapObj(st, int(id))
	ks := x.flatten(st, key, kt)
	if len(ks) != 1 {
		panic(unsupported("composite map key"))
	}
	n := &VMap{}
	for j := range o.Keys {
		if x.decide(st, x.c.Eq(o.Keys[j], ks[0])) {
			continue
		}
		n.Keys = append(n.Keys, o.Keys[j])
		n.Vals = append(n.Vals, o.Vals[j])
	}
	n.Keys = append(n.Keys, ks[0])
	n.Vals = append(n.Vals, v)
	st.heap = st.heap.put(int(id), n)
}
