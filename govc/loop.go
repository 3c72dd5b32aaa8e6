package main

// Loops: complete unrolling when every exit test is decided, invariants otherwise.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	idx    int
}

type loopCtx struct {
	header    *ssa.BasicBlock
	body      map[*ssa.BasicBlock]bool
	constExit bool
}

func (l *loopCtx) withConst() *loopCtx {
	n := *l
	n.constExit = true
	return &n
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	m := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := m[h]
			if l == nil {
				l = &loopInfo{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				m[h] = l
			}
			var work []*ssa.BasicBlock
			if !l.body[b] {
				l.body[b] = true
				work = append(work, b)
			}
			for len(work) > 0 {
				n := work[len(work)-1]
				work = work[:len(work)-1]
				for _, p := range n.Preds {
					if !l.body[p] {
						l.body[p] = true
						work = append(work, p)
					}
				}
			}
		}
	}
	i := 0
	for _, b := range fn.Blocks {
		if l := m[b]; l != nil {
			l.idx = i
			i++
		}
	}
	return m
}

const unrollLimit = 600

func (x *Ex) loop(fr *Frame, st *State, from, header *ssa.BasicBlock, lp *loopInfo, out *[]Outcome) {
	outer := fr.loop
	inv := x.eng.invFor(fr.fn, lp.idx)
	if inv == nil {
		if x.unroll(fr, st, from, header, lp, outer, out) {
			return
		}
	}
	x.invLoop(fr, st, from, header, lp, outer, inv, out)
}

func (x *Ex) unroll(fr *Frame, st *State, from, header *ssa.BasicBlock, lp *loopInfo, outer *loopCtx, out *[]Outcome) bool {
	nobl, ntriv := len(x.obls), x.trivial
	type item struct {
		fr   *Frame
		st   *State
		from *ssa.BasicBlock
	}
	work := []item{{fr.clone(), st.clone(), from}}
	var rets, exits []Outcome
	n := 0
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		n++
		if n > unrollLimit {
			x.obls, x.trivial = x.obls[:nobl], ntriv
			return false
		}
		it.fr.loop = &loopCtx{header: header, body: lp.body}
		x.enter(it.fr, it.st, it.from, header, nil)
		var o []Outcome
		x.run(it.fr, it.st, header, nphi(header), &o)
		back, exit := false, false
		for _, r := range o {
			back = back || r.kind == oBack && !r.st.dead
			exit = exit || r.kind == oExit && !r.st.dead
		}
		if back && exit && x.h != nil && x.h.Enclosing {
			// it can end here or go on
			x.obls, x.trivial = x.obls[:nobl], ntriv
			return false
		}
		for _, r := range o {
			switch r.kind {
			case oBack:
				if !r.constExit {
					x.obls, x.trivial = x.obls[:nobl], ntriv
					return false
				}
				work = append(work, item{r.fr, r.st, r.from})
			case oExit:
				exits = append(exits, r)
			default:
				rets = append(rets, r)
			}
		}
	}
	*out = append(*out, rets...)
	for _, e := range exits {
		e.fr.loop = outer
		x.jump(e.fr, e.st, e.from, e.to, out)
	}
	return true
}

// ---- which parts of the state a loop changes

type modTree struct {
	all   bool
	owned bool // slices: the backing array is produced by the loop
	win   bool // slices: another window of the same array
	f     map[int]*modTree
}

func (t *modTree) union(o *modTree) (*modTree, bool) {
	if o == nil {
		return t, false
	}
	if t == nil {
		return o, true
	}
	if t.all {
		if t.win && !o.win {
			return &modTree{all: true, owned: o.owned}, true
		}
		if o.owned && !t.owned {
			return &modTree{all: true, owned: true}, true
		}
		return t, false
	}
	if o.all {
		return o, true
	}
	n := &modTree{f: map[int]*modTree{}}
	ch := false
	for k, v := range t.f {
		n.f[k] = v
	}
	for k, v := range o.f {
		u, c := n.f[k].union(v)
		n.f[k] = u
		ch = ch || c
	}
	return n, ch
}

func ownedSlice(v Val) bool {
	s, ok := v.(*VSlice)
	if !ok {
		return false
	}
	k, ok := s.Ref.i64()
	return ok && k > 0
}

func diffVal(a, b Val) *modTree {
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok && p == q {
			return nil
		}
	case *VStruct:
		q, ok := b.(*VStruct)
		if !ok {
			break
		}
		if p == q {
			return nil
		}
		var t *modTree
		for i := range p.F {
			if d := diffVal(p.F[i], q.F[i]); d != nil {
				if t == nil {
					t = &modTree{f: map[int]*modTree{}}
				}
				t.f[i] = d
			}
		}
		return t
	case *VArr:
		if q, ok := b.(*VArr); ok && (p == q || p.M == q.M) {
			return nil
		}
	case *VSlice:
		if q, ok := b.(*VSlice); ok && p.Ref == q.Ref && p.Off == q.Off && p.Len == q.Len && p.Cap == q.Cap && len(p.Path) == 0 && len(q.Path) == 0 {
			return nil
		} else if ok && p.Ref == q.Ref && len(p.Path) == 0 && len(q.Path) == 0 {
			return &modTree{all: true, win: true}
		}
	case *VPtr:
		if q, ok := b.(*VPtr); ok && p.Ref == q.Ref && len(p.Path) == 0 && len(q.Path) == 0 {
			return nil
		}
	case *VIface:
		if q, ok := b.(*VIface); ok && (p == q || p.T == nil && q.T == nil) {
			return nil
		}
		if q, ok := b.(*VIface); ok && p.T != nil && q.T != nil && types.Identical(p.T, q.T) && diffVal(p.V, q.V) == nil {
			return nil
		}
	case *VFunc:
		if q, ok := b.(*VFunc); ok && p == q {
			return nil
		}
	case *VMapRef:
		if q, ok := b.(*VMapRef); ok && p.Ref == q.Ref {
			return nil
		}
	case *VMap:
		if q, ok := b.(*VMap); ok && p == q {
			return nil
		}
	case VOpaque:
		if q, ok := b.(VOpaque); ok && p.T == q.T {
			return nil
		}
	}
	return &modTree{all: true, owned: ownedSlice(b)}
}

type symMod struct {
	ref  *Term
	typ  string
	val  Val
	tree *modTree
}

type modSet struct {
	heap map[int]*modTree
	sym  []*symMod
	phi  []*modTree // per phi; nil: unchanged
}

// havocVal makes an arbitrary value like old, changed only where the tree says so.
func (x *Ex) havocVal(st *State, old Val, t types.Type, tree *modTree, name string) Val {
	if tree == nil {
		return old
	}
	if !tree.all {
		o := old.(*VStruct)
		u := t.Underlying().(*types.Struct)
		n := &VStruct{F: append([]Val{}, o.F...)}
		for i, s := range tree.f {
			n.F[i] = x.havocVal(st, o.F[i], u.Field(i).Type(), s, name+"."+u.Field(i).Name())
		}
		return n
	}
	if sl, ok := old.(*VSlice); ok && tree.win {
		c := x.c
		n, k := c.Var(name+".len", SInt, b0, maxLen), c.Var(name+".cap", SInt, b0, maxLen)
		x.fact(st, c.Le(n, k))
		return &VSlice{Ref: sl.Ref, Off: c.Var(name+".off", SInt, b0, maxLen), Len: n, Cap: k, Elem: sl.Elem}
	}
	if a, ok := old.(*VArr); ok {
		return &VArr{Elem: a.Elem, M: &Mem{fam: "loop", ref: x.c.Var(name, SSeq, nil, nil)}}
	}
	if _, ok := old.(*VMap); ok {
		panic(unsupported("map changed in a loop"))
	}
	if t == nil {
		panic(unsupported("object of unknown type changed in a loop"))
	}
	if sl, ok := t.Underlying().(*types.Slice); ok && tree.owned {
		c := x.c
		m := &Mem{fam: "loop", ref: c.Var(name, SSeq, nil, nil)}
		ref := x.alloc(st, &VArr{Elem: sl.Elem(), M: m})
		n, k := c.Var(name+".len", SInt, b0, maxLen), c.Var(name+".cap", SInt, b0, maxLen)
		x.fact(st, c.Le(n, k))
		return &VSlice{Ref: ref, Off: c.Int(0), Len: n, Cap: k, Elem: sl.Elem(), View: c.Var(name+".view", SSeq, nil, nil), ViewMem: m, MaybeNil: c.Var(name+".nil", SBool, nil, nil)}
	}
	return x.fresh(st, t, name)
}

func (x *Ex) havoc(st *State, ms *modSet, phis []*ssa.Phi, init []Val) (*State, []Val) {
	hs := st.clone()
	for id, tree := range ms.heap {
		v := hs.heap.get(id)
		if v == nil {
			v = x.globalInit(hs, id)
		}
		hs.heap = hs.heap.put(id, x.havocVal(hs, v, x.objTyp[id], tree, fmt.Sprintf("h%d", id)))
	}
	for _, m := range ms.sym {
		if a, ok := m.val.(*VArr); ok {
			nv := &VArr{Elem: a.Elem, M: &Mem{fam: "loop", ref: x.c.Var("loopmem", SSeq, nil, nil)}}
			n := 1
			if hs.sym != nil {
				n = hs.sym.n + 1
			}
			hs.sym = &symNode{m.ref, m.typ, nv, hs.sym, n}
			continue
		}
		ty := x.eng.typeByName(m.typ)
		if ty == nil {
			panic(unsupported("symbolic object changed in a loop: " + m.typ))
		}
		old := x.symGet(hs, m.ref, m.typ)
		if old == nil {
			old = x.objGet(hs, m.ref, ty, false)
		}
		nv := x.havocVal(hs, old, ty, m.tree, "hs")
		n := 1
		if hs.sym != nil {
			n = hs.sym.n + 1
		}
		hs.sym = &symNode{m.ref, m.typ, nv, hs.sym, n}
	}
	vals := make([]Val, len(phis))
	for i, p := range phis {
		name := p.Comment
		if name == "" {
			name = p.Name()
		}
		vals[i] = x.havocVal(hs, init[i], p.Type(), x.phiTree(init[i], ms.phi[i]), name)
		if p.Comment == "rangeindex" && ms.phi[i] != nil {
			t := vals[i].(*Term)
			x.fact(hs, x.c.And(x.c.Ge(t, x.c.Int(-1)), x.c.Le(t, x.c.Big(maxLen))))
		}
	}
	return hs, vals
}

func (x *Ex) phiTree(init Val, t *modTree) *modTree {
	if t == nil || t.all {
		return t
	}
	if _, ok := init.(*VStruct); ok {
		return t
	}
	return &modTree{all: true, owned: t.owned}
}

func (x *Ex) symGet(st *State, ref *Term, typ string) Val {
	for s := st.sym; s != nil; s = s.parent {
		if s.typ == typ && s.ref == ref {
			return s.val
		}
	}
	return nil
}

func (x *Ex) invLoop(fr *Frame, st *State, from, header *ssa.BasicBlock, lp *loopInfo, outer *loopCtx, inv []*ssa.Function, out *[]Outcome) {
	c := x.c
	x.invLoops++
	n := nphi(header)
	phis := make([]*ssa.Phi, n)
	init := make([]Val, n)
	for i := 0; i < n; i++ {
		phis[i] = header.Instrs[i].(*ssa.Phi)
		init[i] = x.phiVal(fr, st, from, phis[i])
	}
	where := fmt.Sprintf("%s loop %d", fr.fn.String(), lp.idx)
	x.loopSeen[where] = fmt.Sprintf("%d invariant(s)", len(inv))
	entry := st.clone()
	x.entry = append(x.entry, entry)
	defer func() { x.entry = x.entry[:len(x.entry)-1] }()
	maxRef := x.nextRef

	// establish
	for _, f := range inv {
		s2 := st.clone()
		g := x.invOf(fr, s2, f, phis, init, init)
		x.addObl(s2, g, "invariant", "established: "+where+" "+f.Name())
	}

	// mod set
	ms := &modSet{heap: map[int]*modTree{}, phi: make([]*modTree, n)}
	for i := range phis {
		ms.phi[i] = nil
	}
	runBody := func(hs *State, vals []Val) []Outcome {
		f2 := fr.clone()
		f2.loop = &loopCtx{header: header, body: lp.body}
		x.enter(f2, hs, from, header, vals)
		var o []Outcome
		x.run(f2, hs, header, nphi(header), &o)
		return o
	}
	assumeInv := func(hs *State, vals []Val) {
		for _, f := range inv {
			x.fact(hs, x.invOf(fr, hs, f, phis, vals, init))
		}
	}
	var backs []Outcome
	var hvals []Val
	var hbase *pcNode
	mark := 0
	bwd := func(o Outcome) []Val {
		r := make([]Val, n)
		for i := range phis {
			r[i] = x.phiVal(o.fr, o.st, o.from, phis[i])
		}
		return r
	}
	// collect adds what the outcomes changed to the modification set
	collect := func(o []Outcome, h0 *State, vals []Val) bool {
		changed := false
		for _, r := range o {
			if r.kind != oBack || r.st.dead {
				continue
			}
			for i, v := range bwd(r) {
				d := diffVal(vals[i], v)
				u, ch := ms.phi[i].union(d)
				ms.phi[i] = u
				changed = changed || ch
			}
			r.st.heap.each(func(id int, v interface{}) {
				if id > maxRef && x.objBorn(id, h0) {
					return
				}
				old := h0.heap.get(id)
				if old == nil {
					old = x.gVals[id]
				}
				if old == nil {
					return
				}
				d := diffVal(old, v)
				u, ch := ms.heap[id].union(d)
				if u != nil {
					ms.heap[id] = u
				}
				changed = changed || ch
			})
			hn := 0
			if h0.sym != nil {
				hn = h0.sym.n
			}
			done := map[string]bool{}
			for s := r.st.sym; s != nil && s.n > hn; s = s.parent {
				key := fmt.Sprintf("%d:%s", s.ref.id, s.typ)
				if done[key] {
					continue
				}
				done[key] = true
				old := x.symGet(h0, s.ref, s.typ)
				tree := &modTree{all: true}
				if old != nil {
					tree = diffVal(old, s.val)
				} else if _, ok := s.val.(*VStruct); ok {
					if ty := x.eng.typeByName(s.typ); ty != nil {
						tree = diffVal(x.symObj(h0, ty, s.ref, "H:"+s.typ), s.val)
					}
				}
				if tree == nil {
					continue
				}
				if x.mentionsSince(s.ref, mark) {
					panic(unsupported("loop writes to an object that varies with the iteration: " + where))
				}
				found := false
				for _, m := range ms.sym {
					if m.ref == s.ref && m.typ == s.typ {
						found = true
						u, ch := m.tree.union(tree)
						m.tree = u
						changed = changed || ch
					}
				}
				if !found {
					ms.sym = append(ms.sym, &symMod{s.ref, s.typ, s.val, tree})
					changed = true
				}
			}
		}
		return changed
	}
	// loops inside are first run without offered invariants: that is enough to see what changes
	narrow := x.h != nil && x.h.Narrow && x.rough == 0
	var guess, insts []*candInst
	if narrow {
		guess = x.candInsts(fr, st, phis, init)
	}
again:
	ms = &modSet{heap: map[int]*modTree{}, phi: make([]*modTree, n)}
	rough := true
	for round := 0; ; round++ {
		if round > 10 {
			panic(unsupported("loop modification set does not stabilise: " + where))
		}
		x.silent++
		if rough {
			x.rough++
		}
		innerLoops := x.invLoops
		mark = len(c.terms)
		hs, vals := x.havoc(st, ms, phis, init)
		assumeInv(hs, vals)
		for _, ci := range guess {
			x.assumeCand(fr, hs, ci, vals)
		}
		h0 := hs.clone()
		hbase = hs.pc
		hvals = vals
		nobl := len(x.obls)
		o := runBody(hs, vals)
		x.obls = x.obls[:nobl]
		x.silent--
		if rough {
			x.rough--
		}
		backs = nil
		for _, r := range o {
			if r.kind == oBack && !r.st.dead {
				backs = append(backs, r)
			}
		}
		changed := collect(o, h0, vals)
		if !changed {
			if narrow || !rough || x.rough > 0 || x.invLoops == innerLoops || len(x.cands) == 0 || len(backs) > 6 {
				break
			}
			rough = false
		}
	}

	// offered invariants: keep the inductive ones
	insts = nil
	if narrow {
		insts = guess
	} else if x.rough == 0 {
		insts = x.candInsts(fr, st, phis, init)
	}
	var done []Outcome // of a pass with all offered invariants
	var doneVals []Val
	var done0 *State
	doneMark := 0
	if len(insts) > 0 && len(backs) > 0 {
		for {
			x.silent++
			nobl := len(x.obls)
			now := len(c.terms)
			hs, vals := x.havoc(st, ms, phis, init)
			x.counterFacts(hs, phis, vals, hvals, init, backs, bwd, hbase, mark)
			assumeInv(hs, vals)
			for _, ci := range insts {
				x.assumeCand(fr, hs, ci, vals)
			}
			h0 := hs.clone()
			o := runBody(hs, vals)
			x.obls = x.obls[:nobl]
			x.silent--
			if debugCand {
				kinds := map[int]int{}
				for _, r := range o {
					kinds[r.kind]++
				}
				fmt.Fprintf(os.Stderr, "--- outcomes %s %v\n", where, kinds)
				for _, r := range o {
					fmt.Fprintln(os.Stderr, "--- outcome", r.kind)
					for _, h := range r.st.pc.since(hbase) {
						fmt.Fprintf(os.Stderr, "   O %s\n", x.c.Show(h))
					}
				}
			}
			keep := insts
			for _, r := range o {
				if r.kind != oBack || r.st.dead {
					continue
				}
				bv := bwd(r)
				var k2 []*candInst
				for _, ci := range keep {
					if x.tryCand(fr, r.st, ci, bv) {
						k2 = append(k2, ci)
					}
				}
				keep = k2
			}
			if len(keep) == len(insts) {
				if narrow && x.silent > 0 {
					done, doneVals, done0, doneMark = o, vals, h0, now
				}
				break
			}
			insts = keep
			if len(insts) == 0 {
				break
			}
		}
		if narrow && len(insts) < len(guess) {
			// the modification set was found under invariants that do not all hold
			guess = insts
			goto again
		}
		for _, ci := range insts {
			x.candOblig(fr, st.clone(), ci, init, "established: "+where)
		}
		x.loopSeen[where] = fmt.Sprintf("%d invariant(s), %d offered and proved", len(inv), len(insts))
	} else {
		if narrow && len(guess) > 0 && len(backs) > 0 {
			guess = nil
			goto again
		}
		insts = nil
	}

	// final run
	now := len(c.terms)
	hs, vals := x.havoc(st, ms, phis, init)
	x.counterFacts(hs, phis, vals, hvals, init, backs, bwd, hbase, mark)
	mark = now
	assumeInv(hs, vals)
	for _, ci := range insts {
		x.assumeCand(fr, hs, ci, vals)
	}
	if len(backs) == 0 {
		// the body never comes back: a single pass from the entry state
		hs, vals = st.clone(), init
	}
	h0 := hs.clone()
	var last []Outcome
	if done != nil {
		last, vals, h0, mark = done, doneVals, done0, doneMark
	} else {
		last = runBody(hs, vals)
	}
	if narrow && len(backs) > 0 && collect(last, h0, vals) {
		panic(unsupported("loop changes more than its invariants allow: " + where))
	}
	for _, o := range last {
		switch o.kind {
		case oBack:
			if o.st.dead {
				continue
			}
			bv := bwd(o)
			for i, v := range bv {
				x.leakCheck(v, ms.phi[i], phis[i].Type(), where)
			}
			for _, f := range inv {
				s2 := o.st.clone()
				g := x.invOf(o.fr, s2, f, phis, bv, init)
				x.addObl(s2, g, "invariant", "preserved: "+where+" "+f.Name())
			}
			for _, ci := range insts {
				x.candOblig(fr, o.st.clone(), ci, bv, "preserved: "+where)
			}
		case oExit:
			o.fr.loop = outer
			x.jump(o.fr, o.st, o.from, o.to, out)
		default:
			*out = append(*out, o)
		}
	}
}

// candInst is an offered invariant with loop variables chosen for its parameters.
type candInst struct {
	f    *VFunc
	bind []candBind
	desc string
}

type candBind struct {
	phi int
	v   ssa.Value
}

func (x *Ex) candInsts(fr *Frame, st *State, phis []*ssa.Phi, init []Val) []*candInst {
	var out []*candInst
	// values a parameter can stand for: loop variables, and slices, pointers and the like
	// that were made before the loop
	var outer, around []ssa.Value
	for _, p := range fr.fn.Params {
		outer = append(outer, p)
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && fr.env[v] != nil {
				switch v.Type().Underlying().(type) {
				case *types.Slice, *types.Pointer, *types.Map:
					isPhi := false
					for _, p := range phis {
						isPhi = isPhi || p == v
					}
					if !isPhi {
						outer = append(outer, v)
					}
				}
			}
		}
	}
	if x.h != nil && x.h.Enclosing && len(phis) > 0 {
		here := phis[0].Block()
		for h, lp := range x.eng.loopsOf(fr.fn) {
			if h == here || !lp.body[here] {
				continue
			}
			for _, in := range h.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && fr.env[p] != nil {
					around = append(around, p)
				}
			}
		}
		sort.Slice(around, func(i, j int) bool {
			a, b := around[i].(*ssa.Phi), around[j].(*ssa.Phi)
			if a.Block() != b.Block() {
				return a.Block().Index < b.Block().Index
			}
			return a.Name() < b.Name()
		})
		outer = append(outer, around...)
	}
	for _, f := range x.cands {
		if x.outerCands[f] && len(x.entry) > 1 {
			continue
		}
		ps := f.Fn.Params
		var rec func(i int, bind []candBind)
		rec = func(i int, bind []candBind) {
			if len(out) > 60 {
				return
			}
			if i == len(ps) {
				ci := &candInst{f: f, bind: append([]candBind{}, bind...)}
				for k, b := range bind {
					n := ""
					if b.v != nil {
						n = b.v.Name()
					} else if n = phis[b.phi].Comment; n == "" {
						n = phis[b.phi].Name()
					}
					ci.desc += " " + ps[k].Name() + "=" + n
				}
				if x.tryCand(fr, st, ci, init) {
					out = append(out, ci)
				}
				return
			}
			// a variable of the same name is the one that is meant
			named := false
			own := false
			if x.h != nil && x.h.Enclosing {
				for _, p := range phis {
					own = own || p.Comment == ps[i].Name() && types.Identical(p.Type(), ps[i].Type())
				}
				named = own
				for _, v := range around {
					named = named || v.(*ssa.Phi).Comment == ps[i].Name() && types.Identical(v.Type(), ps[i].Type())
				}
			}
			for j, p := range phis {
				if named && p.Comment != ps[i].Name() {
					continue
				}
				if types.Identical(p.Type(), ps[i].Type()) {
					dup := false
					for _, b := range bind {
						dup = dup || b.v == nil && b.phi == j
					}
					if !dup {
						rec(i+1, append(bind, candBind{phi: j}))
					}
				}
			}
			for _, v := range outer {
				if p, ok := v.(*ssa.Phi); own || named && (!ok || p.Comment != ps[i].Name()) {
					continue
				}
				if types.Identical(v.Type(), ps[i].Type()) {
					rec(i+1, append(bind, candBind{v: v}))
				}
			}
		}
		rec(0, nil)
	}
	return out
}

// candTerm evaluates an offered invariant; nil when that is not possible.
func (x *Ex) candTerm(fr *Frame, st *State, ci *candInst, vals []Val) (t *Term) {
	nobl, depth := len(x.obls), len(x.stack)
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(unsup); !ok {
				panic(p)
			}
			x.obls = x.obls[:nobl]
			x.stack = x.stack[:depth]
			t = nil
		}
	}()
	var args []Val
	for _, b := range ci.bind {
		if b.v != nil {
			args = append(args, fr.env[b.v])
		} else {
			args = append(args, vals[b.phi])
		}
	}
	x.inLoopSpec++
	defer func() { x.inLoopSpec-- }()
	x.silent++
	defer func() { x.silent-- }()
	return x.boolOf(st, ci.f.Fn, args, ci.f.Bind)
}

func (x *Ex) assumeCand(fr *Frame, st *State, ci *candInst, vals []Val) {
	if t := x.candTerm(fr, st, ci, vals); t != nil {
		x.fact(st, t)
	}
}

func (x *Ex) candOblig(fr *Frame, st *State, ci *candInst, vals []Val, what string) {
	if t := x.candTerm(fr, st, ci, vals); t != nil {
		x.addObl(st, t, "invariant", what+" "+ci.f.Fn.Name()+ci.desc)
	} else {
		x.addObl(st, x.c.False, "invariant", what+" "+ci.f.Fn.Name()+ci.desc)
	}
}

// tryCand tells whether an offered invariant is proved to hold in st.
func (x *Ex) tryCand(fr *Frame, st *State, ci *candInst, vals []Val) bool {
	st = st.clone()
	t := x.candTerm(fr, st, ci, vals)
	if debugCand {
		fmt.Fprintf(os.Stderr, "--- try: %s%s: %v\n", ci.f.Fn.Name(), ci.desc, t == nil)
	}
	if t == nil {
		return false
	}
	if st.dead || t.isTrue() {
		return true
	}
	if t.isFalse() {
		return x.quick.Check(Query{Hyps: x.hyps(st)}) == "unsat"
	}
	var ts []*Term
	if t.op == OAnd {
		ts = t.args
	} else {
		ts = []*Term{t}
	}
	x.mute++
	defer func() { x.mute-- }()
	for _, g := range ts {
		k := fmt.Sprintf("%d|", g.id)
		for _, h := range st.pc.list() {
			k += fmt.Sprintf("%d,", h.id)
		}
		s, ok := x.candMemo[k]
		if !ok {
			o := &Obligation{Hyps: st.pc.list(), Goal: g}
			t0 := time.Now()
			limit := 5 * time.Second
			if x.h != nil && x.h.Enclosing {
				// there are many that do not hold
				limit = time.Second
			}
			x.prove(o, limit)
			if debugCand {
				fmt.Fprintf(os.Stderr, "--- tried: %s%s: %s %s %.1f\n", ci.f.Fn.Name(), ci.desc, o.Status, o.Back, time.Since(t0).Seconds())
			}
			s = o.Status == "unsat"
			if x.candMemo == nil {
				x.candMemo = map[string]bool{}
			}
			x.candMemo[k] = s
		}
		if !s {
			if debugCand {
				fmt.Fprintf(os.Stderr, "--- not kept: %s%s: %s\n", ci.f.Fn.Name(), ci.desc, x.c.Show(g))
				for _, h := range st.pc.list() {
					fmt.Fprintf(os.Stderr, "   H %s\n", x.c.Show(h))
				}
			}
			return false
		}
	}
	return true
}

var debugCand = os.Getenv("GOVC_CAND") != ""

// leakCheck rejects pointers to local objects in variables the loop leaves arbitrary.
func (x *Ex) leakCheck(v Val, tree *modTree, t types.Type, where string) {
	if tree == nil {
		return
	}
	switch v := v.(type) {
	case *VPtr:
		if k, ok := v.Ref.i64(); ok && k > 0 {
			panic(unsupported("pointer to a local object carried around " + where))
		}
	case *VMapRef:
		if k, ok := v.Ref.i64(); ok && k > 0 {
			panic(unsupported("map carried around " + where))
		}
	}
}

func (x *Ex) objBorn(id int, h0 *State) bool { return h0.heap.get(id) == nil && x.gVals[id] == nil }

func (x *Ex) mentionsSince(t *Term, mark int) bool {
	r := false
	collect([]*Term{t}, func(s *Term) {
		if s.op == OVar && s.id >= mark {
			r = true
		}
	})
	return r
}

// counterFacts assumes what follows by a simple induction for variables that change by a
// constant in every iteration.
func (x *Ex) counterFacts(hs *State, phis []*ssa.Phi, vals, dry, init []Val, backs []Outcome, bwd func(Outcome) []Val, hbase *pcNode, mark int) {
	c := x.c
	if len(backs) == 0 {
		return
	}
	for i, p := range phis {
		v, ok := dry[i].(*Term)
		if !ok || v.sort != SInt || v.op != OVar {
			continue
		}
		if _, _, isInt := intInfo(p.Type()); !isInt {
			continue
		}
		var step *big.Int
		okStep := true
		for _, b := range backs {
			d := c.Sub(bwd(b)[i].(*Term), v)
			if !d.isNum() || d.k.Sign() == 0 || step != nil && step.Cmp(d.k) != 0 {
				okStep = false
				break
			}
			step = d.k
		}
		if !okStep {
			continue
		}
		nv, iv := vals[i].(*Term), init[i].(*Term)
		if step.Sign() > 0 {
			x.fact(hs, c.Ge(nv, iv))
		} else {
			x.fact(hs, c.Le(nv, iv))
		}
		if step.CmpAbs(b1) != 0 {
			// nv = iv + step*k
			k := c.Var("iter", SInt, b0, nil)
			x.fact(hs, c.Eq(nv, c.Add(iv, c.Scale(k, step))))
		}
		if step.CmpAbs(b1) == 0 {
			x.passFacts(hs, v, nv, iv, step.Sign(), backs, hbase, mark)
		}
		// bounds that hold on every way back
		var common map[*Term]bool
		for _, b := range backs {
			cur := map[*Term]bool{}
			for _, t := range b.st.pc.since(hbase) {
				if t.op != OLe {
					continue
				}
				pl := c.toPoly(t.args[0])
				k := pl.m[v]
				if k == nil || k.CmpAbs(b1) != 0 || k.Sign() != step.Sign() {
					continue
				}
				// k*v + rest <= 0
				rest := c.Sub(t.args[0], c.Scale(v, k))
				if !x.mentionsSince(rest, mark) {
					cur[rest] = true
				}
			}
			if common == nil {
				common = cur
			} else {
				for t := range common {
					if !cur[t] {
						delete(common, t)
					}
				}
			}
		}
		for _, rest := range sortTerms(common) {
			// before the step k*v + rest <= 0 held, so afterwards k*(v-step) + rest <= 0
			k := big.NewInt(int64(step.Sign()))
			f := c.Le(c.Add(c.Scale(c.Sub(nv, c.Big(step)), k), rest), c.Int(0))
			e := c.Eq(nv, iv)
			if x.tri(hs, c.Le(c.Add(c.Scale(c.Sub(iv, c.Big(step)), k), rest), c.Int(0))) == 1 {
				x.fact(hs, f)
			} else {
				x.fact(hs, c.Or(e, f))
			}
		}
	}
}

var debugPass = os.Getenv("GOVC_PASS") != ""

// passFacts assumes, for every earlier value j of a counter that steps by one, what the path
// condition of some way around the loop says about an iteration that starts with j.
func (x *Ex) passFacts(hs *State, v, nv, iv *Term, dir int, backs []Outcome, hbase *pcNode, mark int) {
	c := x.c
	if len(backs) > 6 {
		return
	}
	fresh := func(t *Term) *Term {
		var f *Term
		collect([]*Term{t}, func(s *Term) {
			if s.op == OVar && s.id >= mark && s != v && f == nil {
				f = s
			}
		})
		return f
	}
	j := c.Bound("pass", v.lo, v.hi)
	var alts []*Term
	for _, b := range backs {
		facts := b.st.pc.since(hbase)
		// bounds of variables born inside of the body by terms that are not
		var weaken func(t *Term, n int) []*Term // consequences of t without fresh variables
		weaken = func(t *Term, n int) []*Term {
			f := fresh(t)
			if f == nil {
				return []*Term{t}
			}
			if t.op != OLe || n == 0 {
				return nil
			}
			k := c.toPoly(t.args[0]).m[f]
			if k == nil {
				return nil
			}
			rest := c.Sub(t.args[0], c.Scale(f, k))
			if mentions(rest, f) {
				return nil
			}
			var out []*Term
			for _, g := range facts {
				if g.op != OLe || g == t || len(out) > 3 {
					continue
				}
				kk := c.toPoly(g.args[0]).m[f]
				if kk == nil || kk.CmpAbs(b1) != 0 || kk.Sign() == k.Sign() {
					continue
				}
				r := c.Sub(g.args[0], c.Scale(f, kk)) // kk*f + r <= 0
				if fresh(r) != nil {
					continue
				}
				// k>0, kk=-1: f >= r; k<0, kk=1: f <= -r
				if kk.Sign() > 0 {
					r = c.Neg(r)
				}
				out = append(out, weaken(c.Le(c.Add(c.Scale(r, k), rest), c.Int(0)), n-1)...)
			}
			return out
		}
		var conj []*Term
		for _, t := range facts {
			if !mentions(t, v) {
				continue
			}
			switch {
			case fresh(t) == nil:
				conj = append(conj, t)
			case t.op == OLe:
				for _, w := range weaken(t, 3) {
					if mentions(w, v) {
						conj = append(conj, w)
					}
				}
			case t.op == OForall && t.args[0].op == OOr:
				alts := [][]*Term{nil}
				for _, d := range t.args[0].args {
					var next [][]*Term
					for _, w := range weaken(d, 3) {
						for _, a := range alts {
							if len(next) < 6 {
								next = append(next, append(append([]*Term{}, a...), w))
							}
						}
					}
					alts = next
				}
				for _, ds := range alts {
					conj = append(conj, c.Forall(t.args[1:], c.Or(ds...)))
				}
			}
		}
		if debugPass {
			for _, t := range facts {
				fmt.Println("passfact", v.name, fresh(t), mentions(t, v), t.op, c.Show(t))
			}
		}
		if len(conj) == 0 {
			return
		}
		alts = append(alts, c.And(conj...))
	}
	if debugPass {
		fmt.Println("passalt", c.Show(c.Or(alts...)))
	}
	p := c.Subst(c.Or(alts...), map[*Term]*Term{v: j})
	var out *Term
	if dir > 0 {
		out = c.Or(c.Lt(j, iv), c.Ge(j, nv))
	} else {
		out = c.Or(c.Gt(j, iv), c.Le(j, nv))
	}
	x.fact(hs, c.Forall([]*Term{j}, c.Or(out, p)))
}

func mentions(t, v *Term) bool {
	r := false
	collect([]*Term{t}, func(s *Term) { r = r || s == v })
	return r
}

func sortTerms(m map[*Term]bool) []*Term {
	var r []*Term
	for t := range m {
		r = append(r, t)
	}
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if r[j].id < r[i].id {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return r
}

// invOf evaluates an invariant function with its parameters bound by name.
func (x *Ex) invOf(fr *Frame, st *State, f *ssa.Function, phis []*ssa.Phi, vals, init []Val) *Term {
	used := map[int]bool{}
	var args []Val
	missing := []int{}
	for pi, p := range f.Params {
		name := p.Name()
		v := x.bindInv(fr, st, name, p.Type(), phis, vals, init, used)
		if v == nil {
			missing = append(missing, pi)
		}
		args = append(args, v)
	}
	for _, pi := range missing {
		p := f.Params[pi]
		src := vals
		if strings.HasPrefix(p.Name(), "init_") {
			src = init
		}
		cand := -1
		for i, ph := range phis {
			if types.Identical(ph.Type(), p.Type()) && !used[i] {
				if cand >= 0 {
					panic(unsupported(fmt.Sprintf("invariant %s: no variable %s", f.Name(), p.Name())))
				}
				cand = i
			}
		}
		if cand < 0 {
			panic(unsupported(fmt.Sprintf("invariant %s: no variable %s", f.Name(), p.Name())))
		}
		if src == nil {
			panic("bind")
		}
		args[pi] = src[cand]
	}
	x.inLoopSpec++
	defer func() { x.inLoopSpec-- }()
	return x.boolOf(st, f, args, nil)
}

func (x *Ex) bindInv(fr *Frame, st *State, name string, t types.Type, phis []*ssa.Phi, vals, init []Val, used map[int]bool) Val {
	if n, ok := strings.CutPrefix(name, "init_"); ok {
		for i, p := range phis {
			if p.Comment == n {
				return init[i]
			}
		}
		return nil
	}
	if n, ok := strings.CutPrefix(name, "old_"); ok {
		for i, p := range fr.fn.Params {
			if p.Name() == n {
				return fr.params[i]
			}
		}
		return nil
	}
	for i, p := range phis {
		if p.Comment == name && types.Identical(p.Type(), t) {
			used[i] = true
			return vals[i]
		}
	}
	// phis of enclosing loops
	for v, val := range fr.env {
		if p, ok := v.(*ssa.Phi); ok && p.Comment == name && types.Identical(p.Type(), t) && p.Block() != phis0(phis) {
			return val
		}
	}
	for v, val := range fr.env {
		if a, ok := v.(*ssa.Alloc); ok && a.Comment == name {
			if p, ok := val.(*VPtr); ok && types.Identical(p.Elem, t) {
				return x.load(st, p)
			}
		}
	}
	for _, fv := range fr.fn.FreeVars {
		if fv.Name() == name {
			if p, ok := fr.env[fv].(*VPtr); ok && types.Identical(p.Elem, t) {
				return x.load(st, p)
			}
			return fr.env[fv]
		}
	}
	for i, p := range fr.fn.Params {
		if p.Name() == name && types.Identical(p.Type(), t) {
			return fr.params[i]
		}
	}
	// a parameter that was renamed: by position of its type
	cand := -1
	for i, p := range fr.fn.Params {
		if types.Identical(p.Type(), t) {
			if cand >= 0 {
				return nil
			}
			cand = i
		}
	}
	if cand >= 0 {
		isPhi := false
		for _, p := range phis {
			if types.Identical(p.Type(), t) {
				isPhi = true
			}
		}
		if !isPhi {
			return fr.params[cand]
		}
	}
	return nil
}

func phis0(ps []*ssa.Phi) *ssa.BasicBlock {
	if len(ps) == 0 {
		return nil
	}
	return ps[0].Block()
}
