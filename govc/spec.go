package main

// The contract language: calls to package vspec.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func resType(fn *ssa.Function) types.Type { return fn.Signature.Results().At(0).Type() }

func constStr(v Val) string {
	t, ok := v.(*Term)
	if !ok || !t.isConst() {
		panic(unsupported("contract label is not a constant"))
	}
	return t.name
}

func (x *Ex) intrinsic(st *State, fn *ssa.Function, args []Val) []callRes {
	c := x.c
	none := VTuple{}
	name := fn.Name()
	if o := fn.Origin(); o != nil {
		name = o.Name()
	}
	switch name {
	case "init":
		return one(st, none)
	case "Requires", "Assume":
		if x.inLoopSpec == 0 {
			x.assumes++
		}
		x.fact(st, args[0].(*Term))
		return one(st, none)
	case "Ensures", "Assert":
		kind := "ensures"
		if name == "Assert" {
			kind = "assert"
		}
		g := args[1].(*Term)
		if x.silent == 0 {
			x.labels[constStr(args[0])]++
			if !g.isTrue() {
				x.addObl(st, g, kind, constStr(args[0]))
			} else {
				x.trivial++
			}
		}
		x.fact(st, g)
		return one(st, none)
	case "Any":
		x.nAny++
		return one(st, x.fresh(st, resType(fn), constStr(args[0])))
	case "FreshPtr":
		pt := resType(fn)
		et := pt.Underlying().(*types.Pointer).Elem()
		ref := x.alloc(st, x.fresh(st, et, constStr(args[0])))
		x.objTyp[x.nextRef] = et
		return one(st, &VPtr{Ref: ref, Elem: et})
	case "Pure":
		var fa []*Term
		sig := ""
		for _, a := range x.variadic(st, args[1]) {
			switch a := a.(type) {
			case *VIface:
				if a.T == nil {
					fa = append(fa, c.App("ifc.nil", SIfc))
					sig += ",nil"
				} else {
					fa = append(fa, x.flatten(st, a.V, a.T)...)
					sig += "," + a.T.String()
				}
			case *Term:
				fa = append(fa, a)
				sig += ",?"
			}
		}
		// one symbol for every combination of argument types
		return one(st, x.pure(st, "pure:"+constStr(args[0])+"("+strings.TrimPrefix(sig, ",")+")", resType(fn), fa))
	case "FillPure":
		d := args[0].(*VSlice)
		name, from := "pure:"+constStr(args[1])+"(int64)", args[2].(*Term)
		da := x.sliceArr(st, d)
		do, elem := d.Off, d.Elem
		m := &Mem{prev: da.M, kind: 2, lo: do, hi: c.Add(do, d.Len), gen: func(x *Ex, st *State, i *Term) Val {
			return x.pure(st, name, elem, []*Term{c.Add(from, c.Sub(i, do))})
		}, depth: da.M.depth + 1}
		if x.fold(st, c.Eq(d.Len, c.Int(0))) != 1 {
			x.slicePut(st, d, &VArr{Elem: elem, M: m})
		}
		return one(st, VTuple{})
	case "Forall":
		return one(st, x.forall(st, args[0].(*Term), args[1].(*Term), args[2].(*VFunc)))
	case "Eq":
		ps := fn.Signature.Params()
		return one(st, x.deepEq(st, args[0], args[1], ps.At(0).Type()))
	case "Select":
		cond := args[0].(*Term)
		if !cond.isTrue() && !cond.isFalse() {
			switch x.tri(st, cond) {
			case 1:
				return one(st, args[1])
			case 0:
				return one(st, args[2])
			}
		}
		return one(st, x.merge(st, cond, args[1], args[2], resType(fn)))
	case "If":
		return one(st, x.merge(st, args[0].(*Term), args[1], args[2], resType(fn)))
	case "Cover":
		if x.silent == 0 {
			x.covers = append(x.covers, cover{constStr(args[0]), x.hyps(st)})
		}
		return one(st, none)
	case "Candidate":
		x.cands = append(x.cands, args[0].(*VFunc))
		return one(st, none)
	case "Outer":
		f := args[0].(*VFunc)
		if x.outerCands == nil {
			x.outerCands = map[*VFunc]bool{}
		}
		x.outerCands[f] = true
		x.cands = append(x.cands, f)
		return one(st, none)
	case "EndCandidates":
		x.cands = nil
		return one(st, none)
	case "Split":
		x.decide(st, args[0].(*Term))
		return one(st, none)
	case "Concrete":
		i := args[0].(*Term)
		lo, _ := args[1].(*Term).i64()
		hi, _ := args[2].(*Term).i64()
		for k := lo; k < hi; k++ {
			if x.decide(st, c.Eq(i, c.Int(k))) {
				return one(st, c.Int(k))
			}
		}
		return one(st, i)
	case "Entry":
		f := args[0].(*VFunc)
		if len(x.entry) == 0 {
			panic(unsupported("Entry outside a loop invariant"))
		}
		e := x.entry[len(x.entry)-1]
		s2 := st.clone()
		s2.heap, s2.sym = e.heap, e.sym
		// captured variables keep their current cells
		for _, b := range f.Bind {
			if p, ok := b.(*VPtr); ok {
				if k, ok := p.Ref.i64(); ok {
					s2.heap = s2.heap.put(int(k), st.heap.get(int(k)))
				}
			}
		}
		rs := x.runFn2(s2, f.Fn, nil, f.Bind)
		if len(rs) != 1 {
			panic(unsupported("Entry expression branches"))
		}
		return one(st, rs[0].val)
	case "Nil":
		return one(st, c.App("seq.nil", SSeq))
	case "Snoc":
		return one(st, x.snoc(args[0].(*Term), x.anyElem(st, args[1])))
	case "Cons":
		return one(st, c.App("seq.cons", SSeq, x.anyElem(st, args[0]), args[1].(*Term)))
	case "View":
		s := args[0].(*VSlice)
		if v := x.viewOf(st, s); v != nil {
			return one(st, v)
		}
		if n, ok := s.Len.i64(); ok && n <= 16 {
			sv := c.App("seq.nil", SSeq)
			for i := int64(0); i < n; i++ {
				sv = x.snoc(sv, x.seqElem(st, x.sliceElem(st, s, c.Int(i)), s.Elem))
			}
			return one(st, sv)
		}
		va := []*Term{s.Ref, s.Off, s.Len}
		if id := x.memID(st, s); id != nil {
			return one(st, c.App("seq.viewof:"+tstr(s.Elem), SSeq, append(va, id)...))
		}
		return one(st, c.App("seq.view:"+tstr(s.Elem), SSeq, va...))
	}
	panic(unsupported("vspec." + name))
}

func (x *Ex) anyElem(st *State, v Val) *Term {
	switch a := v.(type) {
	case *VIface:
		if a.T == nil {
			return x.c.App("seq.elem:nil", SSeq)
		}
		if isSeq(a.T) {
			return a.V.(*Term)
		}
		return x.seqElem(st, a.V, a.T)
	case *Term:
		return x.c.App("seq.elem:any", SSeq, a)
	}
	panic("anyElem")
}

func (x *Ex) variadic(st *State, v Val) []Val {
	s := v.(*VSlice)
	n, ok := s.Len.i64()
	if !ok {
		panic(unsupported("variadic argument of unknown length"))
	}
	var r []Val
	for i := int64(0); i < n; i++ {
		r = append(r, x.sliceElem(st, s, x.c.Int(i)))
	}
	return r
}

// deepEq compares values; arrays of pixels inside pointers are not followed.
func (x *Ex) deepEq(st *State, a, b Val, t types.Type) *Term {
	la, lb := x.flatten(st, a, t), x.flatten(st, b, t)
	var cs []*Term
	for i := range la {
		p, q := la[i], lb[i]
		if p.sort == SFlt { // bit equality, not Go's ==
			if p == q {
				continue
			}
			if p.id > q.id {
				p, q = q, p
			}
			cs = append(cs, x.c.mk(&Term{op: OEq, sort: SBool, args: []*Term{p, q}}))
			continue
		}
		cs = append(cs, x.c.Eq(p, q))
	}
	return x.c.And(cs...)
}

func (x *Ex) forall(st *State, lo, hi *Term, f *VFunc) *Term {
	c := x.c
	k := c.Var("q", SInt, nil, nil)
	ll, _ := x.ivOf(st, lo)
	_, hh := x.ivOf(st, hi)
	if ll == nil {
		ll = new(big.Int).Neg(pow2(63))
	}
	if hh == nil {
		hh = pow2(63)
	}
	k = c.Var("q", SInt, ll, hh)
	s2 := st.clone()
	rng := c.And(c.Le(lo, k), c.Lt(k, hi))
	x.fact(s2, rng)
	if s2.dead {
		return c.True
	}
	gs, facts := x.collapse(s2, f.Fn, []Val{k}, f.Bind)
	var alts []*Term
	for _, g := range gs {
		alts = append(alts, c.And(g.cond, g.val.(*Term)))
	}
	b := c.Bound("q", ll, hh)
	m := map[*Term]*Term{k: b}
	body := c.Subst(c.Implies(rng, c.Or(alts...)), m)
	fs := c.And(facts...)
	if !fs.isTrue() {
		x.qfacts++
		x.fact(st, c.Forall([]*Term{b}, c.Subst(c.Implies(rng, fs), m)))
	}
	return c.Forall([]*Term{b}, body)
}

// ---- natively modelled library functions

type nativeFn func(x *Ex, st *State, fn *ssa.Function, args []Val) []callRes

var natives map[string]nativeFn

func init() {
	natives = map[string]nativeFn{
		"strconv.Itoa": func(x *Ex, st *State, fn *ssa.Function, a []Val) []callRes {
			x.note("strconv.Itoa is injective and inverted by strconv.Atoi")
			t := a[0].(*Term)
			if t.isNum() {
				return one(st, x.c.Str(t.k.String()))
			}
			return one(st, x.c.App("itoa", SStr, t))
		},
		"strconv.Atoi": func(x *Ex, st *State, fn *ssa.Function, a []Val) []callRes {
			c := x.c
			s := a[0].(*Term)
			if s.op == OIte {
				if x.decide(st, s.args[0]) {
					s = s.args[1]
				} else {
					s = s.args[2]
				}
			}
			if s.op == OApp && s.name == "itoa" {
				return one(st, VTuple{s.args[0], &VIface{}})
			}
			if s.isConst() {
				if k, ok := new(big.Int).SetString(s.name, 10); ok && k.IsInt64() && s.name[0] != '+' {
					return one(st, VTuple{c.Big(k), &VIface{}})
				}
			}
			x.note("strconv.Atoi of other strings is a deterministic partial function")
			lo, hi := intRange(64, true)
			c.appLo["atoi"], c.appHi["atoi"] = lo, hi
			if x.decide(st, c.App("atoi.ok", SBool, s)) {
				return one(st, VTuple{c.App("atoi", SInt, s), &VIface{}})
			}
			return one(st, VTuple{c.App("atoi.clamped", SInt, s), x.someError(st, "atoi", s)})
		},
		"fmt.Errorf": func(x *Ex, st *State, fn *ssa.Function, a []Val) []callRes {
			x.note("fmt.Errorf returns a non-nil error")
			return one(st, x.someError(st, "errorf", x.c.Var("errorf", SSeq, nil, nil)))
		},
		"strconv.FormatInt": func(x *Ex, st *State, fn *ssa.Function, a []Val) []callRes {
			return one(st, x.formatInt(a[0].(*Term), a[1].(*Term)))
		},
		"strconv.FormatUint": func(x *Ex, st *State, fn *ssa.Function, a []Val) []callRes {
			return one(st, x.formatInt(a[0].(*Term), a[1].(*Term)))
		},
		"strconv.ParseInt": func(x *Ex, st *State, fn *ssa.Function, a []Val) []callRes {
			b, ok1 := a[1].(*Term).i64()
			n, ok2 := a[2].(*Term).i64()
			if !ok1 || !ok2 || b != 10 || n != 0 && n != 64 {
				panic(unsupported("strconv.ParseInt other than decimal numbers of 64 bits"))
			}
			return natives["strconv.Atoi"](x, st, fn, a[:1])
		},
		"fmt.Sprintf": func(x *Ex, st *State, fn *ssa.Function, a []Val) []callRes {
			if t := x.sprintf(st, a); t != nil {
				return one(st, t)
			}
			x.note("fmt.Sprintf returns some string")
			return one(st, x.c.Var("sprintf", SStr, nil, nil))
		},
		"strconv.FormatFloat": func(x *Ex, st *State, fn *ssa.Function, a []Val) []callRes {
			x.note("strconv.ParseFloat(strconv.FormatFloat(f, 'f', -1, 64), 64) = f")
			return one(st, x.c.App("ftoa", SStr, a[0].(*Term), a[1].(*Term), a[2].(*Term), a[3].(*Term)))
		},
		"strconv.ParseFloat": func(x *Ex, st *State, fn *ssa.Function, a []Val) []callRes {
			c := x.c
			s := a[0].(*Term)
			if s.op == OApp && s.name == "ftoa" && s.args[2] == c.Int(-1) && s.args[3] == c.Int(64) && (s.args[1] == c.Int('f') || s.args[1] == c.Int('g') || s.args[1] == c.Int('e')) {
				return one(st, VTuple{s.args[0], &VIface{}})
			}
			x.note("strconv.ParseFloat of other strings is a deterministic partial function")
			if x.decide(st, c.App("atof.ok", SBool, s)) {
				return one(st, VTuple{c.App("atof", SFlt, s), &VIface{}})
			}
			return one(st, VTuple{c.App("atof.clamped", SFlt, s), x.someError(st, "atof", s)})
		},
	}
}

func (x *Ex) formatInt(t, base *Term) *Term {
	x.note("strconv.Itoa is injective and inverted by strconv.Atoi")
	if b, ok := base.i64(); ok && b == 10 {
		if t.isNum() {
			return x.c.Str(t.k.String())
		}
		return x.c.App("itoa", SStr, t)
	}
	x.note("strconv.FormatInt in other bases is a deterministic function")
	return x.c.App("itoa.base", SStr, t, base)
}

// sprintf gives the result for formats of plain text, %d, %s and %v of numbers and strings.
func (x *Ex) sprintf(st *State, a []Val) *Term {
	f, ok := a[0].(*Term)
	if !ok || !f.isConst() {
		return nil
	}
	s, ok := a[1].(*VSlice)
	if !ok {
		return nil
	}
	n, ok := s.Len.i64()
	if !ok {
		return nil
	}
	c := x.c
	r := c.Str("")
	k := int64(0)
	for i := 0; i < len(f.name); i++ {
		if f.name[i] != '%' {
			r = c.Cat(r, c.Str(f.name[i:i+1]))
			continue
		}
		i++
		if i >= len(f.name) {
			return nil
		}
		if f.name[i] == '%' {
			r = c.Cat(r, c.Str("%"))
			continue
		}
		if k >= n {
			return nil
		}
		v, ok := x.sliceElem(st, s, c.Int(k)).(*VIface)
		k++
		if !ok || v.T == nil {
			return nil
		}
		b, ok := v.T.(*types.Basic)
		t, ok2 := v.V.(*Term)
		if !ok || !ok2 {
			return nil
		}
		switch {
		case b.Info()&types.IsInteger != 0 && (f.name[i] == 'd' || f.name[i] == 'v'):
			r = c.Cat(r, x.formatInt(t, c.Int(10)))
		case b.Info()&types.IsString != 0 && (f.name[i] == 's' || f.name[i] == 'v'):
			r = c.Cat(r, t)
		default:
			return nil
		}
	}
	if k != n {
		return nil
	}
	return r
}

// someError is an unspecified non-nil error.
func (x *Ex) someError(st *State, name string, args ...*Term) *Term {
	e := x.c.App("err:"+name, SIfc, args...)
	x.fact(st, x.c.Not(x.c.Eq(x.c.tagOf(e), x.c.Int(0))))
	return e
}

var _ = fmt.Sprint
