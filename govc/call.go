package main

// Calls: builtins, contract-language intrinsics, models, modular contracts, inlining.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type callRes struct {
	st  *State
	val Val
}

func one(st *State, v Val) []callRes { return []callRes{{st, v}} }

func (x *Ex) call(fr *Frame, st *State, call *ssa.CallCommon, ins ssa.Instruction) []callRes {
	var fn Val
	if _, ok := call.Value.(*ssa.Builtin); !ok {
		fn = x.val(fr, st, call.Value)
	}
	var args []Val
	for _, a := range call.Args {
		args = append(args, x.val(fr, st, a))
	}
	return x.callVals(st, call, fn, args)
}

func (x *Ex) callVals(st *State, call *ssa.CallCommon, fn Val, args []Val) []callRes {
	if call.IsInvoke() {
		return x.invoke(st, fn, call.Value.Type(), call.Method, args)
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return one(st, x.builtin(st, b, args, call))
	}
	switch f := fn.(type) {
	case *VFunc:
		return x.callStatic(st, f.Fn, args, f.Bind)
	case *Term:
		x.safety(st, x.c.Not(x.c.Eq(f, x.c.App("fn:nil", SFn))), "call of nil function")
		if st.dead {
			return nil
		}
		if f.op == OIte {
			if x.decide(st, f.args[0]) {
				f = f.args[1]
			} else {
				f = f.args[2]
			}
			v, _ := x.unflatten(st, call.Value.Type(), []*Term{f})
			return x.callVals(st, call, v, args)
		}
		sig := call.Signature()
		x.note("a call through an unknown function value is a deterministic function of its arguments without side effects")
		return one(st, x.pureCall(st, "fnapp", append([]*Term{f}, x.flatArgs(st, args, sig.Params())...), sig.Results()))
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

func (x *Ex) note(s string) { x.used[s] = true }

func (x *Ex) flatArgs(st *State, args []Val, ps *types.Tuple) []*Term {
	var r []*Term
	for i, a := range args {
		r = append(r, x.flatten(st, a, ps.At(i).Type())...)
	}
	return r
}

// pureCall is an application of an uninterpreted function returning the results of a signature.
func (x *Ex) pureCall(st *State, name string, args []*Term, res *types.Tuple) Val {
	switch res.Len() {
	case 0:
		return VTuple{}
	case 1:
		return x.pure(st, name, res.At(0).Type(), args)
	}
	return x.pure(st, name, res, args)
}

func (x *Ex) invoke(st *State, recv Val, it types.Type, m *types.Func, args []Val) []callRes {
	switch r := recv.(type) {
	case *VIface:
		if r.T == nil {
			x.safety(st, x.c.False, "method call on nil interface")
			return nil
		}
		fn := x.eng.prog.LookupMethod(r.T, m.Pkg(), m.Name())
		if fn == nil {
			panic(unsupported("no method " + m.Name() + " on " + tstr(r.T)))
		}
		return x.callStatic(st, fn, append([]Val{r.V}, args...), nil)
	case *Term:
		if r.op == OIte {
			if x.decide(st, r.args[0]) {
				return x.invoke(st, x.unboxKnown(st, r.args[1]), it, m, args)
			}
			return x.invoke(st, x.unboxKnown(st, r.args[2]), it, m, args)
		}
		x.safety(st, x.c.Not(x.c.Eq(x.c.tagOf(r), x.c.Int(0))), "method call on nil interface")
		if st.dead {
			return nil
		}
		// dynamic type already established on this path
		if ty := x.knownType(st, r); ty != nil {
			rs := x.invoke(st, &VIface{T: ty, V: x.unbox(st, r, ty)}, it, m, args)
			if m.FullName() == "(image/color.Color).RGBA" { // the same value may have been asked before its type was known
				u := x.pureCall(st, "inv:"+m.FullName(), []*Term{r}, m.Type().(*types.Signature).Results()).(VTuple)
				for _, cr := range rs {
					if t, ok := cr.val.(VTuple); ok {
						for i := range t {
							x.fact(cr.st, x.c.Eq(u[i].(*Term), t[i].(*Term)))
						}
					}
				}
			}
			return rs
		}
		name := m.FullName()
		if fn := x.forProp(x.eng.models["invoke "+name]); fn != nil {
			return x.runFn(st, fn, append([]Val{r}, args...), nil)
		}
		sig := m.Type().(*types.Signature)
		fa := append([]*Term{r}, x.flatArgs(st, args, sig.Params())...)
		x.note("method " + name + " on a value of unknown type is a deterministic function without side effects")
		v := x.pureCall(st, "inv:"+name, fa, sig.Results())
		if name == "(image/color.Color).RGBA" {
			c := x.c
			t := v.(VTuple)
			a := t[3].(*Term)
			x.fact(st, c.Le(a, c.Int(0xffff)))
			for i := 0; i < 3; i++ {
				x.fact(st, c.Le(t[i].(*Term), a))
			}
			x.note("color.Color.RGBA of a foreign colour type obeys the image/color contract: r,g,b <= a <= 0xffff")
		}
		return one(st, v)
	}
	panic(unsupported(fmt.Sprintf("invoke on %T", recv)))
}

// knownType returns the dynamic type of t when the path fixes it.
func (x *Ex) knownType(st *State, t *Term) types.Type {
	lo, hi := x.ivOf(st, x.c.tagOf(t))
	if lo != nil && hi != nil && lo.Cmp(hi) == 0 && lo.Sign() > 0 {
		return x.eng.typeByID(int(lo.Int64()))
	}
	return nil
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (x *Ex) callStatic(st *State, fn *ssa.Function, args []Val, bind []Val) []callRes {
	name := fnKey(fn)
	pkg := ""
	if p := fn.Package(); p != nil {
		pkg = p.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Package() != nil {
		pkg = o.Package().Pkg.Path()
	}
	if strings.HasSuffix(pkg, "/vspec") && fn.Parent() == nil {
		return x.intrinsic(st, fn, args)
	}
	if nf := natives[name]; nf != nil {
		return nf(x, st, fn, args)
	}
	if m := x.forProp(x.eng.models[name]); m != nil {
		x.note("modelled: " + name)
		return x.runFn(st, m, args, nil)
	}
	if x.h != nil && x.h.Abstract[name] {
		x.note("abstracted (any deterministic function without side effects): " + name)
		ps := fn.Signature.Params()
		var fa []*Term
		i := 0
		if r := fn.Signature.Recv(); r != nil {
			fa = append(fa, x.flatten(st, args[0], r.Type())...)
			i = 1
		}
		fa = append(fa, x.flatArgs(st, args[i:], ps)...)
		return one(st, x.pureCall(st, "abs:"+name, fa, fn.Signature.Results()))
	}
	if ap := x.modularOf(name); ap != nil {
		top := x.h != nil && x.h.Target == name && len(x.stack) > 0 && x.stack[len(x.stack)-1] == x.h.Fn
		if !top {
			x.modUsed[name] = true
			return x.runFn(st, ap, args, nil)
		}
	}
	if x.eng.opaque[name] {
		return one(st, x.opaqueCall(st, fn, args))
	}
	if r := fn.Signature.Recv(); r != nil && len(x.eng.Shadow) > 0 && pkg != "" {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if x.eng.Shadow[tstr(t)] != nil {
			panic(unsupported("method without a model on a type with a ghost representation: " + name))
		}
	}
	if len(fn.Blocks) == 0 {
		if fn.Synthetic == "" || len(fn.Blocks) == 0 {
			panic(unsupported("function without body: " + name))
		}
	}
	if rs := fn.Signature.Results(); rs.Len() == 1 && !isMathInt(rs.At(0).Type()) {
		if b, ok := rs.At(0).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && len(fn.Blocks) > 1 {
			if t := x.boolCall(st, fn, args, bind); t != nil {
				return one(st, t)
			}
		}
	}
	if x.h != nil && x.h.Merge && len(fn.Blocks) > 1 && fn.Signature.Results().Len() == 1 {
		if t := x.intCall(st, fn, args, bind); t != nil {
			return one(st, t)
		}
	}
	return x.runFn(st, fn, args, bind)
}

// boolCall evaluates a side-effect free boolean function to a single term.
// modularOf is the contract that stands for a callee in the current property.
func (x *Ex) modularOf(name string) *ssa.Function { return x.forProp(x.eng.modular[name]) }

func (x *Ex) forProp(es []*modEntry) *ssa.Function {
	for _, m := range es {
		if m.props == nil || x.h != nil && m.props[x.h.Prop] {
			return m.fn
		}
	}
	return nil
}

func (x *Ex) boolCall(st *State, fn *ssa.Function, args, bind []Val) *Term {
	nobl, ntriv := len(x.obls), x.trivial
	s2 := st.clone()
	heap, sym, top := st.heap, st.sym, x.nextRef
	pure := true
	gs, facts := x.collapseF(s2, fn, args, bind, func(r *State) {
		if r.sym != sym {
			n := 0
			if sym != nil {
				n = sym.n
			}
			if r.sym.n != n {
				pure = false
			}
		}
		if r.heap != heap {
			r.heap.each(func(id int, v interface{}) {
				if id <= top && pure {
					if o := heap.get(id); o == nil || diffVal(o, v) != nil {
						pure = false
					}
				}
			})
		}
	})
	if !pure {
		x.obls, x.trivial = x.obls[:nobl], ntriv
		return nil
	}
	for _, f := range facts {
		x.fact(st, f)
	}
	var alts []*Term
	for _, g := range gs {
		alts = append(alts, x.c.And(g.cond, g.val.(*Term)))
	}
	if len(gs) == 0 {
		st.dead = true
	}
	return x.c.Or(alts...)
}

type mergeNode struct {
	v    *Term
	next *mergeNode
}

// intCall evaluates a side-effect free function with one integer result to a single term,
// a variable defined by the facts of its cases. If the result is provably that of an
// earlier call, it is the same variable.
func (x *Ex) intCall(st *State, fn *ssa.Function, args, bind []Val) *Term {
	rt := fn.Signature.Results().At(0).Type()
	if _, _, ok := intInfo(rt); !ok && !isMathInt(rt) {
		return nil
	}
	for _, a := range args {
		switch a.(type) {
		case *Term, *VSlice, *VStruct:
		default:
			return nil
		}
	}
	nobl, ntriv, loops := len(x.obls), x.trivial, x.invLoops
	s2 := st.clone()
	heap, sym, top := st.heap, st.sym, x.nextRef
	pure := true
	gs, facts := x.collapseF(s2, fn, args, bind, func(r *State) {
		if r.sym != sym {
			pure = false
		}
		if r.heap != heap {
			r.heap.each(func(id int, v interface{}) {
				if id <= top && pure {
					if o := heap.get(id); o == nil || diffVal(o, v) != nil {
						pure = false
					}
				}
			})
		}
	})
	if !pure || x.invLoops != loops || len(gs) == 0 {
		x.obls, x.trivial = x.obls[:nobl], ntriv
		return nil
	}
	for _, f := range facts {
		x.fact(st, f)
	}
	c := x.c
	first := gs[0].val.(*Term)
	same := true
	for _, g := range gs[1:] {
		same = same && g.val.(*Term) == first
	}
	if same && (first.isConst() || first.op == OVar || len(c.Vars(first)) == 0) {
		return first
	}
	var lo, hi *big.Int
	var conds []*Term
	for i, g := range gs {
		l, h := x.ivOf(st, g.val.(*Term))
		if i == 0 {
			lo, hi = l, h
		} else {
			lo, hi = minB(lo, l), maxB(hi, h)
		}
		conds = append(conds, g.cond)
	}
	if bits, signed, ok := intInfo(rt); ok && !isMathInt(rt) {
		l, h := intRange(bits, signed)
		lo, hi = tighter(lo, l, true), tighter(hi, h, false)
	}
	v := c.Var("m."+fn.Name(), SInt, lo, hi)
	fs := []*Term{c.Or(conds...)}
	for _, g := range gs {
		fs = append(fs, c.Implies(g.cond, c.Eq(v, g.val.(*Term))))
	}
	hs := st.pc.list()
	n := 0
	for m := st.merges; m != nil && n < 8; m = m.next {
		n++
		// the same in every case?
		eq := true
		for _, g := range gs {
			o := &Obligation{Hyps: append(append([]*Term{}, hs...), g.cond), Goal: c.Eq(m.v, g.val.(*Term))}
			x.mute++
			x.prove(o, 4*time.Second)
			x.mute--
			if o.Status != "unsat" {
				if os.Getenv("DBGU") != "" {
					fmt.Println("NOUNIFY", m.v.name, v.name, o.Status, o.Back)
					for _, h := range o.Hyps {
						fmt.Println("  H", clip(c.Show(h)))
					}
					fmt.Println("  G", clip(c.Show(o.Goal)))
				}
				eq = false
				break
			}
		}
		if eq {
			return m.v
		}
	}
	if same {
		return first
	}
	for _, f := range fs {
		x.fact(st, f)
	}
	st.merges = &mergeNode{v, st.merges}
	return v
}

func (x *Ex) runFn(st *State, fn *ssa.Function, args []Val, bind []Val) []callRes {
	var r []callRes
	for _, o := range x.callFn(st, fn, args, bind) {
		if o.kind == oRet {
			r = append(r, callRes{o.st, o.val})
		}
	}
	if len(r) == 0 {
		d := st.clone()
		d.dead = true
		return []callRes{{d, x.zeroResults(fn)}}
	}
	return r
}

func (x *Ex) zeroResults(fn *ssa.Function) Val {
	rs := fn.Signature.Results()
	if rs.Len() == 1 {
		return x.zero(rs.At(0).Type())
	}
	t := VTuple{}
	for i := 0; i < rs.Len(); i++ {
		t = append(t, x.zero(rs.At(i).Type()))
	}
	return t
}

// ---- collapsing the paths of a side-effect free computation into one term

type guarded struct {
	cond *Term // conjunction of the decisions taken
	val  Val
}

// collapse runs f on every path from st and returns the guarded results. Facts
// learned on the way (axioms, type invariants, discharged safety conditions) are
// returned as implications.
func (x *Ex) collapse(st *State, fn *ssa.Function, args, bind []Val) (gs []guarded, facts []*Term) {
	return x.collapseF(st, fn, args, bind, nil)
}

func (x *Ex) collapseF(st *State, fn *ssa.Function, args, bind []Val, look func(*State)) (gs []guarded, facts []*Term) {
	s2 := st.clone()
	base := st.pc
	loops := x.invLoops
	defer func() {
		if x.invLoops != loops { // with loops left by invariants the paths do not cover every state
			var conds []*Term
			for _, g := range gs {
				conds = append(conds, g.cond)
			}
			facts = append(facts, x.c.Or(conds...))
		}
	}()
	for _, r := range x.runFn2(s2, fn, args, bind) {
		if r.st.dead {
			continue
		}
		if look != nil {
			look(r.st)
		}
		var ds []*Term
		bn := 0
		if base != nil {
			bn = base.n
		}
		var nodes []*pcNode
		for p := r.st.pc; p != nil && p.n > bn; p = p.parent {
			nodes = append(nodes, p)
		}
		for i := len(nodes) - 1; i >= 0; i-- {
			if nodes[i].fact {
				facts = append(facts, x.c.Implies(x.c.And(ds...), nodes[i].t))
			} else {
				ds = append(ds, nodes[i].t)
			}
		}
		gs = append(gs, guarded{x.c.And(ds...), r.val})
	}
	return gs, facts
}

func (x *Ex) runFn2(st *State, fn *ssa.Function, args, bind []Val) []callRes {
	depth := len(x.stack)
	defer func() { x.stack = x.stack[:depth] }()
	var r []callRes
	for _, o := range x.callFn(st, fn, args, bind) {
		if o.kind == oRet {
			r = append(r, callRes{o.st, o.val})
		}
	}
	return r
}

// boolOf collapses a boolean function application to one term.
func (x *Ex) boolOf(st *State, fn *ssa.Function, args, bind []Val) *Term {
	gs, facts := x.collapse(st, fn, args, bind)
	for _, f := range facts {
		x.fact(st, f)
	}
	c := x.c
	var alts []*Term
	for _, g := range gs {
		alts = append(alts, c.And(g.cond, g.val.(*Term)))
	}
	return c.Or(alts...)
}

// ---- opaque recursive specification functions

func (x *Ex) opaqueCall(st *State, fn *ssa.Function, args []Val) Val {
	sig := fn.Signature
	fa := x.flatArgs(st, args, sig.Params())
	name := "spec:" + fn.Name()
	// the content of slices is part of the arguments
	for _, a := range args {
		if s, ok := a.(*VSlice); ok {
			if n, ok := s.Len.i64(); ok && n == 0 {
				continue
			}
			if id := x.memID(st, s); id != nil {
				fa = append(fa, id)
			}
		}
	}
	if n := len(fa); true {
		name = fmt.Sprintf("%s/%d", name, n)
	}
	res := x.pureCall(st, name, fa, sig.Results())
	if x.unfolding > 0 {
		return res
	}
	x.unfolding++
	defer func() { x.unfolding-- }()
	key := name
	for _, a := range fa {
		key += fmt.Sprintf(",%d", a.id)
	}
	// at most once per path
	for p := st.unf; p != nil; p = p.next {
		if p.key == key {
			return res
		}
	}
	st.unf = &unfNode{key, st.unf}
	gs, facts := x.collapse(st, fn, args, nil)
	for _, f := range facts {
		x.fact(st, f)
	}
	c := x.c
	var rt types.Type = sig.Results()
	if sig.Results().Len() == 1 {
		rt = sig.Results().At(0).Type()
	}
	rl := x.flatten(st, res, rt)
	for _, g := range gs {
		vl := x.flatten(st, g.val, rt)
		var es []*Term
		for i := range rl {
			es = append(es, c.Eq(rl[i], vl[i]))
		}
		x.fact(st, c.Implies(g.cond, c.And(es...)))
	}
	return res
}

type unfNode struct {
	key  string
	next *unfNode
}

// ---- builtins

func (x *Ex) builtin(st *State, b *ssa.Builtin, args []Val, call *ssa.CallCommon) Val {
	c := x.c
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case *VSlice:
			if b.Name() == "cap" {
				return v.Cap
			}
			return v.Len
		case *Term:
			n := c.StrLen(v)
			if !n.isNum() {
				x.fact(st, c.And(c.Ge(n, c.Int(0)), c.Le(n, c.Big(maxLen))))
			}
			return n
		case *VArr:
			return c.Int(call.Args[0].Type().Underlying().(*types.Array).Len())
		case *VPtr:
			return c.Int(v.Elem.Underlying().(*types.Array).Len())
		case *VMapRef:
			if id, ok := v.Ref.i64(); ok {
				if id == 0 {
					return c.Int(0)
				}
				return c.Int(int64(len(x.mapObj(st, int(id)).Keys)))
			}
		}
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if r.sort == SFlt {
				panic(unsupported("float min/max"))
			}
			if b.Name() == "min" {
				r = c.Ite(c.Le(r, t), r, t)
			} else {
				r = c.Ite(c.Le(r, t), t, r)
			}
		}
		return r
	case "append":
		return x.appendOp(st, args, call)
	case "copy":
		return x.copyOp(st, args[0].(*VSlice), args[1])
	case "print", "println":
		return VTuple{}
	case "ssa:wrapnilchk":
		x.nilCheck(st, args[0].(*VPtr).Ref)
		return args[0]
	case "delete":
		m := args[0].(*VMapRef)
		id, ok := m.Ref.i64()
		if ok && id != 0 {
			o := x.mapObj(st, int(id))
			ks := x.flatten(st, args[1], call.Args[1].Type())
			n := &VMap{}
			for j := range o.Keys {
				if x.decide(st, c.Eq(o.Keys[j], ks[0])) {
					continue
				}
				n.Keys = append(n.Keys, o.Keys[j])
				n.Vals = append(n.Vals, o.Vals[j])
			}
			st.heap = st.heap.put(int(id), n)
			return VTuple{}
		}
	}
	panic(unsupported("builtin " + b.Name()))
}

func (x *Ex) appendOp(st *State, args []Val, call *ssa.CallCommon) Val {
	c := x.c
	s := args[0].(*VSlice)
	if t, ok := args[1].(*Term); ok { // append([]byte, string...)
		args[1] = x.convert(st, t, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]))
	}
	e := args[1].(*VSlice)
	if n, ok := e.Len.i64(); ok && n == 0 {
		return s
	}
	sz := func(sl *VSlice) *Mem {
		if n, ok := sl.Len.i64(); ok && n == 0 {
			return &Mem{zero: true}
		}
		return x.sliceArr(st, sl).M
	}
	sm := sz(s)
	em := x.sliceArr(st, e).M
	if !x.entailsQuick(st, c.Eq(s.Len, s.Cap)) {
		x.note("append never overwrites an element that another live slice can see (the spare capacity of the appended-to slice is not shared)")
	}
	nl := c.Add(s.Len, e.Len)
	so, eo, sl, el := s.Off, e.Off, s.Len, e.Len
	elem := s.Elem
	// both lengths known and small: explicit list
	if a, ok1 := sl.i64(); ok1 {
		if b, ok2 := el.i64(); ok2 && a+b <= 64 {
			var l []Val
			for i := int64(0); i < a; i++ {
				l = append(l, x.memRead(st, sm, c.AddK(so, i), elem))
			}
			for i := int64(0); i < b; i++ {
				l = append(l, x.memRead(st, em, c.AddK(eo, i), elem))
			}
			m := &Mem{list: l}
			r := &VSlice{Ref: x.alloc(st, &VArr{Elem: elem, M: m}), Off: c.Int(0), Len: nl, Cap: nl, Elem: elem}
			x.appendView(st, s, sm, e, em, r, m)
			return r
		}
	}
	m := &Mem{zero: true}
	m = &Mem{prev: m, kind: 2, lo: c.Int(0), hi: sl, gen: func(x *Ex, st *State, i *Term) Val { return x.memRead(st, sm, c.Add(so, i), elem) }, depth: sm.depth + 1}
	if n, ok := el.i64(); ok && n <= 16 {
		for i := int64(0); i < n; i++ {
			m = x.memStore(m, c.AddK(sl, i), x.memRead(st, em, c.AddK(eo, i), elem))
		}
	} else {
		m = &Mem{prev: m, kind: 2, lo: sl, hi: nl, gen: func(x *Ex, st *State, i *Term) Val {
			return x.memRead(st, em, c.Add(eo, c.Sub(i, sl)), elem)
		}, depth: m.depth + em.depth}
	}
	x.fact(st, c.Le(nl, c.Big(maxLen)))
	cp := c.Var("cap", SInt, b0, maxLen)
	x.fact(st, c.Le(nl, cp))
	r := &VSlice{Ref: x.alloc(st, &VArr{Elem: elem, M: m}), Off: c.Int(0), Len: nl, Cap: cp, Elem: elem}
	x.appendView(st, s, sm, e, em, r, m)
	return r
}

func (x *Ex) entailsQuick(st *State, t *Term) bool { return x.fold(st, t) == 1 }

// memID names the version of the memory behind a slice; nil when it was never written.
func (x *Ex) memID(st *State, s *VSlice) *Term {
	m := x.sliceArr(st, s).M
	if m != x.sliceArr(st, s).M {
		return nil
	}
	if x.memIDs == nil {
		x.memIDs = map[*Mem]int{}
	}
	id, ok := x.memIDs[m]
	if !ok {
		id = len(x.memIDs) + 1
		x.memIDs[m] = id
	}
	return x.c.Int(int64(id))
}

// viewOf gives the abstract content of a slice, when known.
func (x *Ex) viewOf(st *State, s *VSlice) *Term {
	if n, ok := s.Len.i64(); ok && n == 0 {
		return x.c.App("seq.nil", SSeq)
	}
	if s.View != nil {
		if x.sliceArr(st, s).M == s.ViewMem {
			return s.View
		}
	}
	if m := x.sliceArr(st, s).M; m.view != nil && m.vlo == s.Off && (m.vlen == s.Len || x.fold(st, x.c.Eq(m.vlen, s.Len)) == 1) {
		return m.view
	}
	return nil
}

func (x *Ex) seqElem(st *State, v Val, t types.Type) *Term {
	ls := x.flatten(st, v, t)
	return x.c.App("seq.elem:"+tstr(t), SSeq, ls...)
}

func (x *Ex) snoc(s, e *Term) *Term { return x.c.App("seq.snoc", SSeq, s, e) }

func (x *Ex) appendView(st *State, s *VSlice, sm *Mem, e *VSlice, em *Mem, r *VSlice, m *Mem) {
	sv := x.viewOf(st, s)
	if sv == nil {
		return
	}
	n, ok := e.Len.i64()
	if !ok || n > 16 {
		if sl, ok := s.Len.i64(); ok && sl == 0 {
			if ev := x.viewOf(st, e); ev != nil {
				r.View, r.ViewMem = ev, m
			}
		}
		return
	}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(unsup); ok {
				return
			}
			panic(p)
		}
	}()
	for i := int64(0); i < n; i++ {
		sv = x.snoc(sv, x.seqElem(st, x.memRead(st, em, x.c.AddK(e.Off, i), s.Elem), s.Elem))
	}
	r.View, r.ViewMem = sv, m
}

func (x *Ex) copyOp(st *State, d *VSlice, src Val) Val {
	c := x.c
	if t, ok := src.(*Term); ok {
		src = x.convert(st, t, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]))
	}
	s := src.(*VSlice)
	n := c.Ite(c.Le(d.Len, s.Len), d.Len, s.Len)
	switch x.fold(st, c.Le(d.Len, s.Len)) {
	case 1:
		n = d.Len
	case 0:
		n = s.Len
	}
	if k, ok := n.i64(); ok && k == 0 {
		return n
	}
	sm := x.sliceArr(st, s).M
	da := x.sliceArr(st, d)
	so, do := s.Off, d.Off
	elem := d.Elem
	m := da.M
	if k, ok := n.i64(); ok && k <= 16 {
		var vs []Val
		for i := int64(0); i < k; i++ {
			vs = append(vs, x.memRead(st, sm, c.AddK(so, i), elem))
		}
		for i, v := range vs {
			m = x.memStore(m, c.AddK(do, int64(i)), v)
		}
	} else {
		m = &Mem{prev: m, kind: 2, lo: do, hi: c.Add(do, n), gen: func(x *Ex, st *State, i *Term) Val {
			return x.memRead(st, sm, c.Add(so, c.Sub(i, do)), elem)
		}, depth: m.depth + sm.depth + 1}
	}
	if v := x.viewOf(st, s); v != nil && m != da.M && (n == s.Len || x.fold(st, c.Eq(n, s.Len)) == 1) {
		m2 := *m
		m2.view, m2.vlo, m2.vlen = v, do, n
		m = &m2
	}
	x.slicePut(st, d, &VArr{Elem: elem, M: m})
	return n
}
