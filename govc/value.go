package main

// Symbolic values, memory and states.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type VStruct struct{ F []Val }

type VArr struct {
	Elem types.Type
	M    *Mem
}

type sel struct {
	field int   // >= 0
	idx   *Term // array index when non-nil
}

type VPtr struct {
	Ref  *Term
	Path []sel
	Elem types.Type
	Root types.Type // type of the root object when Path is not empty
	Arr  bool       // the root is a slice backing array of Root elements
}

type VSlice struct {
	Ref           *Term
	Path          []sel      // path to the array inside the object
	Root          types.Type // root object type when the array is not a plain backing array
	Off, Len, Cap *Term
	Elem          types.Type
	View          *Term // ghost: abstract content
	ViewMem       *Mem  // the memory version the view describes
	MaybeNil      *Term // condition under which an empty slice made by a loop is nil
}

type VIface struct {
	T types.Type // nil: nil interface
	V Val
}

type VFunc struct {
	Fn   *ssa.Function
	Bind []Val
}

type VTuple []Val

// VOpaque stands for values the engine cannot look into.
type VOpaque struct{ T *Term }

// VMap is a map with a known set of entries (concrete keys).
type VMapRef struct{ Ref *Term }
type VMap struct {
	Keys []*Term
	Vals []Val
}

// ---- memory of arrays: a persistent log over an initial content

type Mem struct {
	prev *Mem
	kind int // 0 initial, 1 single store, 2 region
	// initial
	zero bool
	fam  string // uninterpreted family, applied to (ref, idx)
	ref  *Term
	list []Val
	// store
	idx *Term
	val Val
	// region [lo,hi) with generator over the absolute index
	lo, hi *Term
	gen    func(x *Ex, st *State, idx *Term) Val
	depth  int
	// the content of [vlo, vlo+vlen) as a sequence, when it is known
	view, vlo, vlen *Term
}

// ---- persistent integer map

type trie struct {
	kids [16]*trie
	has  bool
	val  interface{}
}

func (t *trie) get(k int) interface{} {
	u := uint(k)
	for t != nil {
		t = t.kids[u&15]
		if t == nil {
			return nil
		}
		u >>= 4
		if u == 0 {
			if t.has {
				return t.val
			}
			return nil
		}
	}
	return nil
}

func (t *trie) put(k int, v interface{}) *trie {
	return t.set(uint(k), v)
}

func (t *trie) set(u uint, v interface{}) *trie {
	n := &trie{}
	if t != nil {
		*n = *t
	}
	c := n.kids[u&15]
	if u>>4 == 0 {
		m := &trie{}
		if c != nil {
			*m = *c
		}
		m.has, m.val = true, v
		n.kids[u&15] = m
		return n
	}
	n.kids[u&15] = c.set(u>>4, v)
	return n
}

// each visits entries (key reconstruction by path).
func (t *trie) each(f func(k int, v interface{})) { t.walk(0, 0, f) }
func (t *trie) walk(base uint, sh uint, f func(k int, v interface{})) {
	if t == nil {
		return
	}
	for i, c := range t.kids {
		if c == nil {
			continue
		}
		k := base | uint(i)<<sh
		if c.has {
			f(int(k), c.val)
		}
		c.walk(k, sh+4, f)
	}
}

// ---- path conditions and states

type pcNode struct {
	t      *Term
	parent *pcNode
	n      int
	fact   bool // implied by the program and the axioms, not a choice of path
}

func (p *pcNode) list() []*Term {
	if p == nil {
		return nil
	}
	r := make([]*Term, p.n)
	for q := p; q != nil; q = q.parent {
		r[q.n-1] = q.t
	}
	return r
}

func (p *pcNode) since(base *pcNode) []*Term {
	b := 0
	if base != nil {
		b = base.n
	}
	l := p.list()
	if b > len(l) {
		b = len(l)
	}
	return l[b:]
}

type symNode struct {
	ref    *Term
	typ    string
	val    Val
	parent *symNode
	n      int
}

type ivl struct{ lo, hi *big.Int }

type State struct {
	pc     *pcNode
	heap   *trie // object id -> Val
	sym    *symNode
	bnd    *trie      // term id -> *ivl
	merges *mergeNode // results of merged calls
	unf    *unfNode   // recursive specification functions unfolded on this path
	dead   bool
}

func (st *State) clone() *State { n := *st; return &n }

func (x *Ex) ivOf(st *State, t *Term) (*big.Int, *big.Int) {
	var f func(t *Term, d int) (*big.Int, *big.Int)
	f = func(t *Term, d int) (*big.Int, *big.Int) {
		lo, hi := t.lo, t.hi
		if t.isConst() {
			return lo, hi
		}
		if d < 6 {
			var l, h *big.Int
			g := func(a *Term) (*big.Int, *big.Int) { return f(a, d+1) }
			switch t.op {
			case OLin:
				l, h = linIv(t, g)
			case OMul:
				l, h = mulIvs(t, g)
			case ODiv:
				l, h = divIv(t, g)
			case OIte:
				al, ah := g(t.args[1])
				bl, bh := g(t.args[2])
				l, h = minB(al, bl), maxB(ah, bh)
			}
			lo, hi = tighter(lo, l, true), tighter(hi, h, false)
		}
		if v := st.bnd.get(t.id); v != nil {
			b := v.(*ivl)
			lo, hi = tighter(lo, b.lo, true), tighter(hi, b.hi, false)
		}
		return lo, hi
	}
	return f(t, 0)
}

func tighter(a, b *big.Int, low bool) *big.Int {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if (a.Cmp(b) < 0) == low {
		return b
	}
	return a
}

// assume adds a choice of path (or an assumption of the contract) to the path condition.
func (x *Ex) assume(st *State, t *Term) { x.assumeK(st, t, false) }

// fact adds a consequence of the program text or of an axiom.
func (x *Ex) fact(st *State, t *Term) { x.assumeK(st, t, true) }

func (x *Ex) assumeK(st *State, t *Term, fact bool) {
	c := x.c
	if t.isTrue() || st.dead {
		return
	}
	if t.isFalse() {
		st.dead = true
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			x.assumeK(st, a, fact)
		}
		return
	}
	if t.op == OOr {
		for i, a := range t.args {
			if a.op == OForall {
				rest := append(append([]*Term{}, t.args[:i]...), t.args[i+1:]...)
				x.assumeK(st, c.Forall(a.args[1:], c.Or(append(rest, a.args[0])...)), fact)
				return
			}
		}
	}
	if t.op == ONot && t.args[0].op == OForall { // a counterexample exists
		q := t.args[0]
		m := map[*Term]*Term{}
		for _, v := range q.args[1:] {
			m[v] = c.Var("wit", SInt, v.lo, v.hi)
		}
		x.assumeK(st, c.Not(c.Subst(q.args[0], m)), fact)
		return
	}
	for p := st.pc; p != nil; p = p.parent {
		if p.t == t {
			return
		}
	}
	n := 1
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &pcNode{t, st.pc, n, fact}
	set := func(m *Term, lo, hi *big.Int) {
		ol, oh := x.ivOf(st, m)
		nl, nh := tighter(ol, lo, true), tighter(oh, hi, false)
		if nl != nil && nh != nil && nl.Cmp(nh) > 0 {
			st.dead = true
		}
		st.bnd = st.bnd.put(m.id, &ivl{nl, nh})
	}
	lin := func(t *Term, eq bool) {
		p := c.toPoly(t)
		if len(p.m) == 1 {
			for m, k := range p.m {
				// k*m + K <= 0
				nk := new(big.Int).Neg(p.k)
				if eq {
					if new(big.Int).Mod(nk, new(big.Int).Abs(k)).Sign() == 0 {
						q := new(big.Int).Quo(nk, k)
						set(m, q, q)
					} else {
						st.dead = true
					}
				} else if k.Sign() > 0 {
					set(m, nil, floorDiv(nk, k))
				} else {
					// m >= ceil(nk/k) = -floor(nk / -k)
					set(m, new(big.Int).Neg(floorDiv(nk, new(big.Int).Neg(k))), nil)
				}
			}
			return
		}
		// bound the whole sum so that later comparisons fold
		if t.op == OLin {
			s := c.Sub(t, c.Big(p.k))
			nk := new(big.Int).Neg(p.k)
			if eq {
				set(s, nk, nk)
				set(c.Neg(s), p.k, p.k)
			} else {
				set(s, nil, nk)
				set(c.Neg(s), p.k, nil)
			}
			// propagate one step to each monomial
			for m, k := range p.m {
				// k*m <= -K - rest
				rest := c.Sub(s, c.Scale(m, k))
				rl, rh := x.ivOf(st, rest)
				_ = rh
				if rl != nil {
					up := new(big.Int).Sub(nk, rl)
					if k.Sign() > 0 {
						set(m, nil, floorDiv(up, k))
					} else {
						set(m, new(big.Int).Neg(floorDiv(up, new(big.Int).Neg(k))), nil)
					}
				}
				if eq && rh != nil {
					dn := new(big.Int).Sub(nk, rh) // k*m >= dn
					if k.Sign() > 0 {
						set(m, new(big.Int).Neg(floorDiv(new(big.Int).Neg(dn), k)), nil)
					} else {
						set(m, nil, floorDiv(new(big.Int).Neg(dn), new(big.Int).Neg(k)))
					}
				}
			}
		}
	}
	switch t.op {
	case OLe:
		lin(t.args[0], false)
	case OEq:
		if len(t.args) == 1 {
			lin(t.args[0], true)
		}
	case ONot:
		// m != bound tightens an interval end
		if e := t.args[0]; e.op == OEq && len(e.args) == 1 {
			p := c.toPoly(e.args[0])
			if len(p.m) == 1 {
				for m, k := range p.m {
					nk := new(big.Int).Neg(p.k)
					q := new(big.Int).Quo(nk, k)
					lo, hi := x.ivOf(st, m)
					if lo != nil && lo.Cmp(q) == 0 {
						set(m, new(big.Int).Add(q, b1), nil)
					}
					if hi != nil && hi.Cmp(q) == 0 {
						set(m, nil, new(big.Int).Sub(q, b1))
					}
				}
			}
		}
	}
}

// fold evaluates a condition under the path's intervals: 1 true, 0 false, -1 unknown.
func (x *Ex) fold(st *State, t *Term) int {
	if t.isTrue() {
		return 1
	}
	if t.isFalse() {
		return 0
	}
	for p := st.pc; p != nil; p = p.parent {
		if p.t == t {
			return 1
		}
	}
	nt := x.c.Not(t)
	for p := st.pc; p != nil; p = p.parent {
		if p.t == nt {
			return 0
		}
	}
	switch t.op {
	case OLe:
		lo, hi := x.bounds(st, t.args[0])
		if hi != nil && hi.Sign() <= 0 {
			return 1
		}
		if lo != nil && lo.Sign() > 0 {
			return 0
		}
	case OEq:
		if len(t.args) == 1 {
			lo, hi := x.bounds(st, t.args[0])
			if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
				return 0
			}
			if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
				return 1
			}
		}
	case ONot:
		if r := x.fold(st, t.args[0]); r >= 0 {
			return 1 - r
		}
	case OAnd:
		all := true
		for _, a := range t.args {
			r := x.fold(st, a)
			if r == 0 {
				return 0
			}
			all = all && r == 1
		}
		if all {
			return 1
		}
	case OOr:
		none := true
		for _, a := range t.args {
			r := x.fold(st, a)
			if r == 1 {
				return 1
			}
			none = none && r == 0
		}
		if none {
			return 0
		}
	}
	return -1
}

// entails asks whether the path condition implies t (cheaply, then with the quick solver).
func (x *Ex) entails(st *State, t *Term) bool {
	switch x.fold(st, t) {
	case 1:
		return true
	case 0:
		return st.dead
	}
	return x.quick.Check(Query{Hyps: x.hyps(st), Goal: t}) == "unsat"
}

// hyps lists the path facts, without quantified ones.
func (x *Ex) hyps(st *State) []*Term {
	var r []*Term
	for _, t := range st.pc.list() {
		if t.op != OForall {
			r = append(r, t)
		}
	}
	return r
}

func (x *Ex) feasible(st *State, t *Term) bool {
	switch x.fold(st, t) {
	case 1:
		return !st.dead
	case 0:
		return false
	}
	return x.quick.Check(Query{Hyps: x.hyps(st), Goal: x.c.Not(t)}) != "unsat"
}

type forkReq struct{ cond *Term }

// decide returns the truth of cond on this path, forking the path when it is open.
func (x *Ex) decide(st *State, cond *Term) bool {
	switch x.fold(st, cond) {
	case 1:
		return true
	case 0:
		return false
	}
	if x.quick.Check(Query{Hyps: x.hyps(st), Goal: cond}) == "unsat" {
		x.fact(st, cond)
		return true
	}
	if x.quick.Check(Query{Hyps: x.hyps(st), Goal: x.c.Not(cond)}) == "unsat" {
		x.fact(st, x.c.Not(cond))
		return false
	}
	panic(forkReq{cond})
}

// ---- types

var (
	pow2 = func(n uint) *big.Int { return new(big.Int).Lsh(b1, n) }
)

func intInfo(t types.Type) (bits uint, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	case types.UntypedInt:
		return 64, true, true
	}
	return
}

func intRange(bits uint, signed bool) (*big.Int, *big.Int) {
	if signed {
		h := pow2(bits - 1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, b1)
	}
	return b0, new(big.Int).Sub(pow2(bits), b1)
}

func isSeq(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Seq" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/vspec")
}

func isMathInt(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Z" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/vspec")
}

func tstr(t types.Type) string { return types.TypeString(t, nil) }

// leaf describes one scalar component of a type.
type leaf struct {
	sort   Sort
	lo, hi *big.Int
}

var maxLen = pow2(46)

func (x *Ex) leaves(t types.Type) []leaf {
	if l, ok := x.leafMemo[t]; ok {
		return l
	}
	var r []leaf
	if isSeq(t) {
		r = []leaf{{sort: SSeq}}
		x.leafMemo[t] = r
		return r
	}
	if isMathInt(t) {
		r = []leaf{{sort: SInt}}
		x.leafMemo[t] = r
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if bits, sg, ok := intInfo(t); ok {
			lo, hi := intRange(bits, sg)
			r = []leaf{{SInt, lo, hi}}
		} else if u.Info()&types.IsBoolean != 0 {
			r = []leaf{{sort: SBool}}
		} else if u.Info()&types.IsString != 0 {
			r = []leaf{{sort: SStr}}
		} else if u.Info()&types.IsFloat != 0 {
			r = []leaf{{sort: SFlt}}
		} else if u.Kind() == types.UnsafePointer {
			r = []leaf{{SInt, nil, b0}}
		} else {
			panic(unsupported("type " + tstr(t)))
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, x.leaves(u.Field(i).Type())...)
		}
	case *types.Array:
		if u.Len() > 32 {
			r = []leaf{{sort: SSeq}} // large arrays are opaque when flattened
		} else {
			for i := int64(0); i < u.Len(); i++ {
				r = append(r, x.leaves(u.Elem())...)
			}
		}
	case *types.Slice:
		r = []leaf{{SInt, nil, b0}, {SInt, b0, maxLen}, {SInt, b0, maxLen}, {SInt, b0, maxLen}}
	case *types.Pointer, *types.Map, *types.Chan:
		r = []leaf{{SInt, nil, b0}}
	case *types.Interface:
		r = []leaf{{sort: SIfc}}
	case *types.Signature:
		r = []leaf{{sort: SFn}}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			r = append(r, x.leaves(u.At(i).Type())...)
		}
	default:
		panic(unsupported("type " + tstr(t)))
	}
	x.leafMemo[t] = r
	return r
}

type unsup struct{ msg string }

func unsupported(msg string) unsup { return unsup{msg} }

// flatten turns a value into its scalar components.
func (x *Ex) flatten(st *State, v Val, t types.Type) []*Term {
	c := x.c
	switch v := v.(type) {
	case *Term:
		if t != nil {
			if _, ok := t.Underlying().(*types.Interface); ok && v.sort != SIfc {
				panic(fmt.Sprintf("flatten: %s as %s", c.Show(v), t))
			}
		}
		return []*Term{v}
	case *VStruct:
		var r []*Term
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(fmt.Sprintf("flatten struct as %s", t))
		}
		for i, f := range v.F {
			r = append(r, x.flatten(st, f, u.Field(i).Type())...)
		}
		return r
	case *VArr:
		u := t.Underlying().(*types.Array)
		if u.Len() > 32 {
			return []*Term{c.Var("bigarr", SSeq, nil, nil)}
		}
		var r []*Term
		for i := int64(0); i < u.Len(); i++ {
			r = append(r, x.flatten(st, x.memRead(st, v.M, c.Int(i), v.Elem), v.Elem)...)
		}
		return r
	case *VSlice:
		if len(v.Path) != 0 {
			panic(unsupported("flattening a slice of an embedded array"))
		}
		return []*Term{v.Ref, v.Off, v.Len, v.Cap}
	case *VPtr:
		if len(v.Path) != 0 {
			panic(unsupported("flattening an interior pointer"))
		}
		return []*Term{v.Ref}
	case *VMapRef:
		return []*Term{v.Ref}
	case *VIface:
		return []*Term{x.box(st, v)}
	case *VFunc:
		if len(v.Bind) > 0 {
			return []*Term{c.Var("closure", SFn, nil, nil)}
		}
		return []*Term{c.App("fn:"+v.Fn.String(), SFn)}
	case VTuple:
		u := t.(*types.Tuple)
		var r []*Term
		for i, f := range v {
			r = append(r, x.flatten(st, f, u.At(i).Type())...)
		}
		return r
	case VOpaque:
		return []*Term{v.T}
	case nil:
		panic("flatten nil value of type " + tstr(t))
	}
	panic(fmt.Sprintf("flatten %T", v))
}

func (x *Ex) box(st *State, v *VIface) *Term {
	if v.T == nil {
		return x.c.App("ifc.nil", SIfc)
	}
	name := x.typeName(v.T)
	ls := x.flatten(st, v.V, v.T)
	// box(unbox(v)) = v
	if len(ls) > 0 && ls[0].op == OApp && ls[0].name == unboxName(name, 0) {
		src := ls[0].args[0]
		ok := true
		for i, l := range ls {
			if !(l.op == OApp && l.name == unboxName(name, i) && l.args[0] == src) {
				ok = false
				break
			}
		}
		if ok {
			return src
		}
	}
	return x.c.App("box:"+name, SIfc, ls...)
}

func (x *Ex) typeName(t types.Type) string {
	n := tstr(t)
	if _, ok := x.eng.typeIDs[n]; !ok {
		x.eng.mu.Lock()
		if _, ok := x.eng.typeIDs[n]; !ok {
			x.eng.addType(n, t)
		}
		x.eng.mu.Unlock()
	}
	return n
}

func (x *Ex) typeID(t types.Type) *Term {
	n := x.typeName(t)
	x.c.tagNames[n] = int64(x.eng.tid(n))
	return x.c.Int(int64(x.eng.tid(n)))
}

// unflatten builds a value of type t from scalars.
func (x *Ex) unflatten(st *State, t types.Type, ls []*Term) (Val, []*Term) {
	c := x.c
	if isSeq(t) || isMathInt(t) {
		return ls[0], ls[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return &VPtr{Ref: ls[0], Elem: nil}, ls[1:]
		}
		return ls[0], ls[1:]
	case *types.Struct:
		s := &VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ls = x.unflatten(st, u.Field(i).Type(), ls)
			s.F = append(s.F, f)
		}
		return s, ls
	case *types.Array:
		if u.Len() > 32 {
			return &VArr{Elem: u.Elem(), M: &Mem{fam: "bigarr", ref: ls[0]}}, ls[1:]
		}
		var vs []Val
		for i := int64(0); i < u.Len(); i++ {
			var f Val
			f, ls = x.unflatten(st, u.Elem(), ls)
			vs = append(vs, f)
		}
		return &VArr{Elem: u.Elem(), M: &Mem{list: vs}}, ls
	case *types.Slice:
		return &VSlice{Ref: ls[0], Off: ls[1], Len: ls[2], Cap: ls[3], Elem: u.Elem()}, ls[4:]
	case *types.Pointer:
		return &VPtr{Ref: ls[0], Elem: u.Elem()}, ls[1:]
	case *types.Map:
		return &VMapRef{ls[0]}, ls[1:]
	case *types.Chan:
		return VOpaque{ls[0]}, ls[1:]
	case *types.Interface:
		return x.unboxKnown(st, ls[0]), ls[1:]
	case *types.Signature:
		if ls[0].op == OApp && strings.HasPrefix(ls[0].name, "fn:") {
			if f := x.eng.fnByName(ls[0].name[3:]); f != nil {
				return &VFunc{Fn: f}, ls[1:]
			}
		}
		return ls[0], ls[1:]
	case *types.Tuple:
		var r VTuple
		for i := 0; i < u.Len(); i++ {
			var f Val
			f, ls = x.unflatten(st, u.At(i).Type(), ls)
			r = append(r, f)
		}
		return r, ls
	}
	_ = c
	panic(unsupported("unflatten " + tstr(t)))
}

// unboxKnown turns an interface term with a manifest type into a VIface.
func (x *Ex) unboxKnown(st *State, t *Term) Val {
	if t.op == OApp && t.name == "ifc.nil" {
		return &VIface{}
	}
	if t.op == OApp && strings.HasPrefix(t.name, "box:") {
		ty := x.eng.typeByName(t.name[4:])
		v, _ := x.unflatten(st, ty, t.args)
		return &VIface{T: ty, V: v}
	}
	return t
}

// fresh makes an arbitrary value of type t.
func (x *Ex) fresh(st *State, t types.Type, name string) Val {
	var ls []*Term
	for i, l := range x.leaves(t) {
		n := name
		if i > 0 {
			n = fmt.Sprintf("%s.%d", name, i)
		}
		ls = append(ls, x.c.Var(n, l.sort, l.lo, l.hi))
	}
	v, _ := x.unflatten(st, t, ls)
	x.wellTyped(st, v, t)
	return v
}

// pure makes the value of an uninterpreted pure function.
func (x *Ex) pure(st *State, name string, t types.Type, args []*Term) Val {
	var ls []*Term
	for i, l := range x.leaves(t) {
		n := name
		if i > 0 {
			n = fmt.Sprintf("%s#%d", name, i)
		}
		if l.lo != nil {
			x.c.appLo[n] = l.lo
		}
		if l.hi != nil {
			x.c.appHi[n] = l.hi
		}
		ls = append(ls, x.c.App(n, l.sort, args...))
	}
	v, _ := x.unflatten(st, t, ls)
	x.wellTyped(st, v, t)
	return v
}

// wellTyped assumes the representation invariants of slices inside v.
func (x *Ex) wellTyped(st *State, v Val, t types.Type) {
	c := x.c
	switch v := v.(type) {
	case *VSlice:
		x.fact(st, c.Le(v.Len, v.Cap))
		x.fact(st, c.Implies(c.Eq(v.Ref, c.Int(0)), c.And(c.Eq(v.Cap, c.Int(0)), c.Eq(v.Len, c.Int(0)), c.Eq(v.Off, c.Int(0)))))
	case *VStruct:
		u, ok := t.Underlying().(*types.Struct)
		if ok {
			for i, f := range v.F {
				x.wellTyped(st, f, u.Field(i).Type())
			}
		}
	case VTuple:
		u := t.(*types.Tuple)
		for i, f := range v {
			x.wellTyped(st, f, u.At(i).Type())
		}
	}
}

// zero value of a type
func (x *Ex) zero(t types.Type) Val {
	c := x.c
	if isSeq(t) {
		return c.App("seq.nil", SSeq)
	}
	if isMathInt(t) {
		return c.Int(0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return c.Int(0)
		case u.Info()&types.IsBoolean != 0:
			return c.False
		case u.Info()&types.IsString != 0:
			return c.Str("")
		case u.Info()&types.IsFloat != 0:
			return c.Flt("0")
		case u.Kind() == types.UnsafePointer:
			return &VPtr{Ref: c.Int(0)}
		case u.Kind() == types.UntypedNil:
			return &VIface{}
		}
	case *types.Struct:
		s := &VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, x.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return &VArr{Elem: u.Elem(), M: &Mem{zero: true}}
	case *types.Slice:
		z := c.Int(0)
		return &VSlice{Ref: z, Off: z, Len: z, Cap: z, Elem: u.Elem(), View: c.App("seq.nil", SSeq)}
	case *types.Pointer:
		return &VPtr{Ref: c.Int(0), Elem: u.Elem()}
	case *types.Map:
		return &VMapRef{c.Int(0)}
	case *types.Chan:
		return VOpaque{c.Int(0)}
	case *types.Interface:
		return &VIface{}
	case *types.Signature:
		return c.App("fn:nil", SFn)
	case *types.Tuple:
		var r VTuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, x.zero(u.At(i).Type()))
		}
		return r
	}
	panic(unsupported("zero " + tstr(t)))
}

// ---- merging

// merge builds ite(cond, a, b) for values of type t.
func (x *Ex) merge(st *State, cond *Term, a, b Val, t types.Type) Val {
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if ta, ok := a.(*Term); ok {
		if tb, ok := b.(*Term); ok {
			return x.c.Ite(cond, ta, tb)
		}
	}
	la, lb := x.flatten(st, a, t), x.flatten(st, b, t)
	ls := make([]*Term, len(la))
	for i := range la {
		ls[i] = x.c.Ite(cond, la[i], lb[i])
	}
	v, _ := x.unflatten(st, t, ls)
	return v
}

// ---- array memory

func (x *Ex) memRead(st *State, m *Mem, idx *Term, elem types.Type) Val {
	c := x.c
	for ; m != nil; m = m.prev {
		switch m.kind {
		case 1:
			e := c.Eq(m.idx, idx)
			switch x.tri(st, e) {
			case 1:
				return m.val
			case 0:
				continue
			}
			rest := x.memRead(st, m.prev, idx, elem)
			return x.mergeOrFork(st, e, m.val, rest, elem)
		case 2:
			in := c.And(c.Le(m.lo, idx), c.Lt(idx, m.hi))
			switch x.tri(st, in) {
			case 1:
				return m.gen(x, st, idx)
			case 0:
				continue
			}
			rest := x.memRead(st, m.prev, idx, elem)
			return x.mergeOrFork(st, in, m.gen(x, st, idx), rest, elem)
		default:
			if m.zero {
				return x.zero(elem)
			}
			if m.list != nil {
				if k, ok := idx.i64(); ok {
					if k >= 0 && int(k) < len(m.list) {
						return m.list[k]
					}
					return x.zero(elem)
				}
				// symbolic index into a known list
				v := m.list[len(m.list)-1]
				for i := len(m.list) - 2; i >= 0; i-- {
					v = x.merge(st, c.Eq(idx, c.Int(int64(i))), m.list[i], v, elem)
				}
				return v
			}
			return x.pure(st, "E:"+m.fam+":"+tstr(elem), elem, []*Term{m.ref, idx})
		}
	}
	panic("memRead")
}

func (x *Ex) mergeOrFork(st *State, cond *Term, a, b Val, t types.Type) (r Val) {
	mergeable := func(v Val) bool {
		switch v := v.(type) {
		case *VFunc:
			return false
		case *VSlice:
			return len(v.Path) == 0 && v.View == nil
		case *VPtr:
			return len(v.Path) == 0
		}
		return true
	}
	if mergeable(a) && mergeable(b) {
		return x.merge(st, cond, a, b, t)
	}
	if x.decide(st, cond) {
		return a
	}
	return b
}

// tri decides a condition without forking.
func (x *Ex) tri(st *State, t *Term) int {
	if r := x.fold(st, t); r >= 0 {
		return r
	}
	if x.quick.Check(Query{Hyps: x.hyps(st), Goal: t}) == "unsat" {
		return 1
	}
	if x.quick.Check(Query{Hyps: x.hyps(st), Goal: x.c.Not(t)}) == "unsat" {
		return 0
	}
	return -1
}

func (x *Ex) memStore(m *Mem, idx *Term, v Val) *Mem {
	if m.kind == 1 && m.idx == idx {
		m = m.prev
	} else if m.kind == 0 && m.list != nil {
		if k, ok := idx.i64(); ok && k >= 0 && int(k) < len(m.list) {
			l := append([]Val{}, m.list...)
			l[k] = v
			return &Mem{list: l}
		}
	}
	return &Mem{prev: m, kind: 1, idx: idx, val: v, depth: m.depth + 1}
}

// ---- objects

func (x *Ex) alloc(st *State, v Val) *Term {
	x.nextRef++
	st.heap = st.heap.put(x.nextRef, v)
	return x.c.Int(int64(x.nextRef))
}

// arrType is the key type of symbolic backing arrays.
func arrKey(elem types.Type) string { return "[]" + tstr(elem) }

// objGet reads a whole object.
func (x *Ex) objGet(st *State, ref *Term, typ types.Type, isArr bool) Val {
	if k, ok := ref.i64(); ok {
		if k > 0 {
			v := st.heap.get(int(k))
			if v == nil {
				v = x.globalInit(st, int(k))
			}
			if v == nil {
				panic(fmt.Sprintf("dangling ref %d", k))
			}
			return v
		}
		panic(unsupported("access through nil reference"))
	}
	if ref.op == OIte { // a reference chosen between objects: case split
		if x.decide(st, ref.args[0]) {
			return x.objGet(st, ref.args[1], typ, isArr)
		}
		return x.objGet(st, ref.args[2], typ, isArr)
	}
	key := tstr(typ)
	if isArr {
		key = arrKey(typ)
	}
	for s := st.sym; s != nil; s = s.parent {
		if s.typ != key {
			continue
		}
		if s.ref == ref {
			return s.val
		}
		if x.decide(st, x.c.Eq(s.ref, ref)) {
			return s.val
		}
	}
	if isArr {
		return &VArr{Elem: typ, M: &Mem{fam: "sl", ref: ref}}
	}
	if a, ok := typ.Underlying().(*types.Array); ok {
		return &VArr{Elem: a.Elem(), M: &Mem{fam: "arr", ref: ref}}
	}
	return x.symObj(st, typ, ref, "H:"+key)
}

// symObj builds the initial content of a symbolic object.
func (x *Ex) symObj(st *State, typ types.Type, ref *Term, name string) Val {
	if u, ok := typ.Underlying().(*types.Struct); ok && !isSeq(typ) {
		s := &VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, x.symObj(st, u.Field(i).Type(), ref, fmt.Sprintf("%s.%s", name, u.Field(i).Name())))
		}
		return s
	}
	if a, ok := typ.Underlying().(*types.Array); ok {
		return &VArr{Elem: a.Elem(), M: &Mem{fam: name, ref: ref}}
	}
	return x.pure(st, name, typ, []*Term{ref})
}

func (x *Ex) objPut(st *State, ref *Term, typ types.Type, isArr bool, v Val) {
	if k, ok := ref.i64(); ok {
		st.heap = st.heap.put(int(k), v)
		return
	}
	if ref.op == OIte {
		if x.decide(st, ref.args[0]) {
			x.objPut(st, ref.args[1], typ, isArr, v)
		} else {
			x.objPut(st, ref.args[2], typ, isArr, v)
		}
		return
	}
	key := tstr(typ)
	if isArr {
		key = arrKey(typ)
	}
	// find the representative already in the list (objGet has decided aliasing)
	for s := st.sym; s != nil; s = s.parent {
		if s.typ == key && s.ref != ref && x.fold(st, x.c.Eq(s.ref, ref)) == 1 {
			ref = s.ref
			break
		}
	}
	n := 1
	if st.sym != nil {
		n = st.sym.n + 1
	}
	st.sym = &symNode{ref, key, v, st.sym, n}
}

func (x *Ex) navGet(st *State, v Val, path []sel) Val {
	for _, s := range path {
		if s.idx != nil {
			a := v.(*VArr)
			v = x.memRead(st, a.M, s.idx, a.Elem)
		} else {
			v = v.(*VStruct).F[s.field]
		}
	}
	return v
}

func (x *Ex) navPut(st *State, v Val, path []sel, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	if s.idx != nil {
		a := v.(*VArr)
		if len(path) > 1 {
			nv = x.navPut(st, x.memRead(st, a.M, s.idx, a.Elem), path[1:], nv)
		}
		return &VArr{Elem: a.Elem, M: x.memStore(a.M, s.idx, nv)}
	}
	o := v.(*VStruct)
	n := &VStruct{F: append([]Val{}, o.F...)}
	n.F[s.field] = x.navPut(st, o.F[s.field], path[1:], nv)
	return n
}

func (p *VPtr) root() (types.Type, bool) {
	if p.Root != nil {
		return p.Root, p.Arr
	}
	return p.Elem, false
}

func (x *Ex) load(st *State, p *VPtr) Val {
	x.nilCheck(st, p.Ref)
	root, arr := p.root()
	v := x.objGet(st, p.Ref, root, arr)
	return x.navGet(st, v, p.Path)
}

func (x *Ex) store(st *State, p *VPtr, nv Val) {
	x.nilCheck(st, p.Ref)
	root, arr := p.root()
	v := x.objGet(st, p.Ref, root, arr)
	x.objPut(st, p.Ref, root, arr, x.navPut(st, v, p.Path, nv))
}

func (x *Ex) nilCheck(st *State, ref *Term) {
	if k, ok := ref.i64(); ok && k > 0 {
		return
	}
	x.safety(st, x.c.Not(x.c.Eq(ref, x.c.Int(0))), "nil dereference")
}

// sliceArr returns the array behind a slice.
func (x *Ex) sliceArr(st *State, s *VSlice) *VArr {
	if s.Root == nil {
		return x.objGet(st, s.Ref, s.Elem, true).(*VArr)
	}
	return x.navGet(st, x.objGet(st, s.Ref, s.Root, false), s.Path).(*VArr)
}

// slicePut replaces the array behind a slice.
func (x *Ex) slicePut(st *State, s *VSlice, a *VArr) {
	if s.Root == nil {
		x.objPut(st, s.Ref, s.Elem, true, a)
		return
	}
	v := x.objGet(st, s.Ref, s.Root, false)
	x.objPut(st, s.Ref, s.Root, false, x.navPut(st, v, s.Path, a))
}

func (x *Ex) sliceElem(st *State, s *VSlice, i *Term) Val {
	a := x.sliceArr(st, s)
	return x.memRead(st, a.M, x.c.Add(s.Off, i), s.Elem)
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
