package main

// Translation of queries to SMT-LIB, arithmetic lemma generation and the solver portfolio.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type Query struct {
	Hyps []*Term // may contain OForall terms
	Goal *Term   // proved when Hyps && !Goal is unsatisfiable; nil: is Hyps satisfiable?
}

type Result struct {
	Status  string // unsat, sat, unknown
	Backend string
	Time    time.Duration
	Model   map[string]string
	SMT     string
}

// ---- collecting

func collect(roots []*Term, visit func(*Term)) {
	seen := map[*Term]bool{}
	var f func(*Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			f(a)
		}
		visit(t)
	}
	for _, r := range roots {
		f(r)
	}
}

// lemmas generates sound arithmetic facts about the nonlinear terms of a query.
func (c *Ctx) lemmas(roots []*Term) []*Term {
	var out []*Term
	done := map[*Term]bool{}
	add := func(t *Term) {
		if !t.isTrue() && !done[t] {
			done[t] = true
			out = append(out, t)
		}
	}
	consts := []int64{0, 1, 0xfe, 0xff, 0xfffe, 0xffff}
	handledDiv := map[*Term]bool{}
	for round := 0; round < 2; round++ {
		var divs []*Term
		collect(append(append([]*Term{}, roots...), out...), func(t *Term) {
			if t.hasBnd {
				return
			}
			if t.op == ODiv && !t.args[1].isNum() && !handledDiv[t] {
				divs = append(divs, t)
			}
		})
		for _, d := range divs {
			handledDiv[d] = true
			n, e := d.args[0], d.args[1]
			pos := c.Ge(e, c.Int(1))
			p := c.Mul(e, d)
			add(c.Implies(pos, c.And(c.Le(p, n), c.Lt(n, c.Add(p, e)))))
			add(c.Implies(c.And(pos, c.Ge(n, c.Int(0))), c.Ge(d, c.Int(0))))
			for _, k := range consts {
				// d <= k <=> n < (k+1)*e
				l, r := c.Le(d, c.Int(k)), c.Lt(n, c.Scale(e, big.NewInt(k+1)))
				add(c.Implies(pos, c.Eq(l, r)))
			}
		}
	}
	// monotonicity between divisions by the same divisor
	var divs []*Term
	for d := range handledDiv {
		divs = append(divs, d)
	}
	sort.Slice(divs, func(i, j int) bool { return divs[i].id < divs[j].id })
	if len(divs) <= 8 {
		for i, a := range divs {
			for _, b := range divs[i+1:] {
				if a.args[1] == b.args[1] {
					add(c.Implies(c.And(c.Ge(a.args[1], c.Int(1)), c.Le(a.args[0], b.args[0])), c.Le(a, b)))
					add(c.Implies(c.And(c.Ge(a.args[1], c.Int(1)), c.Le(b.args[0], a.args[0])), c.Le(b, a)))
				}
			}
		}
	}
	var muls []*Term
	collect(append(append([]*Term{}, roots...), out...), func(t *Term) {
		if t.op == OMul && !t.hasBnd {
			muls = append(muls, t)
		}
	})
	split := func(t *Term) [][2]*Term {
		if len(t.args) == 2 {
			return [][2]*Term{{t.args[0], t.args[1]}}
		}
		var r [][2]*Term
		for i := range t.args {
			rest := append(append([]*Term{}, t.args[:i]...), t.args[i+1:]...)
			m := rest[0]
			for _, x := range rest[1:] {
				m = c.Mul(m, x)
			}
			r = append(r, [2]*Term{t.args[i], m})
		}
		return r
	}
	for _, m := range muls {
		for _, s := range split(m) {
			a, b := s[0], s[1]
			mc := func(x, y *Term) { // x>=0, y>=0 => x*y>=0
				g := c.Ge(c.Mul(x, y), c.Int(0))
				add(c.Implies(c.And(c.Ge(x, c.Int(0)), c.Ge(y, c.Int(0))), g))
			}
			var as, bs []*Term
			if a.lo != nil {
				as = append(as, c.Sub(a, c.Big(a.lo)))
			} else {
				as = append(as, a)
			}
			if a.hi != nil {
				as = append(as, c.Sub(c.Big(a.hi), a))
			} else if a.lo == nil {
				as = append(as, c.Neg(a))
			}
			if b.lo != nil {
				bs = append(bs, c.Sub(b, c.Big(b.lo)))
			} else {
				bs = append(bs, b)
			}
			if b.hi != nil {
				bs = append(bs, c.Sub(c.Big(b.hi), b))
			} else if b.lo == nil {
				bs = append(bs, c.Neg(b))
			}
			for _, x := range as {
				for _, y := range bs {
					mc(x, y)
				}
			}
		}
	}
	// products sharing a factor
	type fs struct{ other, mul *Term }
	by := map[*Term][]fs{}
	var keys []*Term
	for _, m := range muls {
		for _, s := range split(m) {
			for j := 0; j < 2; j++ {
				if len(by[s[j]]) == 0 {
					keys = append(keys, s[j])
				}
				by[s[j]] = append(by[s[j]], fs{s[1-j], m})
				if s[0] == s[1] {
					break
				}
			}
		}
	}
	n := 0
	for _, f := range keys {
		l := by[f]
		if len(l) > 10 {
			continue
		}
		for i, x := range l {
			for _, y := range l[i+1:] {
				if x.other == y.other || n > 400 {
					continue
				}
				n++
				nn := c.Ge(f, c.Int(0))
				add(c.Implies(c.And(nn, c.Lt(x.other, y.other)), c.Le(c.Add(x.mul, f), y.mul)))
				add(c.Implies(c.And(nn, c.Lt(y.other, x.other)), c.Le(c.Add(y.mul, f), x.mul)))
				add(c.Implies(c.Eq(x.other, y.other), c.Eq(x.mul, y.mul)))
			}
		}
	}
	return out
}

// groundAxioms: facts about interface boxes and string constants in the query.
func (c *Ctx) groundAxioms(roots []*Term) []*Term {
	var out, eqs []*Term
	lens := false
	collect(roots, func(t *Term) {
		if t.op == OApp && t.name == "str.len" {
			lens = true
		}
		if t.hasBnd {
			return
		}
		if t.op == OEq && len(t.args) == 2 && t.args[0].sort == SStr {
			eqs = append(eqs, t)
		}
		if isBox(t) {
			tag := c.tagRaw(t)
			out = append(out, c.mk(&Term{op: OEq, sort: SBool, args: []*Term{c.Sub(c.App("tagof", SInt, t), tag)}}))
			for i, a := range t.args {
				u := c.App(unboxName(strings.TrimPrefix(t.name, "box:"), i), a.sort, t)
				if a.sort == SInt {
					out = append(out, c.Eq(u, a))
				} else if a.sort == SBool {
					out = append(out, c.Eq(u, a))
				} else {
					x, y := u, a
					if x.id > y.id {
						x, y = y, x
					}
					out = append(out, c.mk(&Term{op: OEq, sort: SBool, args: []*Term{x, y}}))
				}
			}
		}
		if t.op == OApp && t.name == "str.len" {
			out = append(out, c.Ge(t, c.Int(0)))
		}
	})
	if lens {
		// texts that are equal have the same length
		for _, e := range eqs {
			out = append(out, c.Implies(e, c.Eq(c.StrLen(e.args[0]), c.StrLen(e.args[1]))))
		}
	}
	return out
}

func unboxName(typ string, i int) string { return fmt.Sprintf("unbox:%s#%d", typ, i) }

// ---- printing

type printer struct {
	c     *Ctx
	sb    *bytes.Buffer
	names map[*Term]string
	decl  map[string]bool
	nl    bool // print products natively
	strs  []*Term
	flts  []*Term
	vars  []*Term
}

func qn(s string) string {
	return "|" + strings.ReplaceAll(strings.ReplaceAll(s, "|", "!"), "\\", "/") + "|"
}

func num(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

func (p *printer) declare(name string, args []Sort, res Sort) {
	key := name
	if p.decl[key] {
		return
	}
	p.decl[key] = true
	var as []string
	for _, a := range args {
		as = append(as, sortName[a])
	}
	fmt.Fprintf(p.sb, "(declare-fun %s (%s) %s)\n", qn(name), strings.Join(as, " "), sortName[res])
}

func (p *printer) expr(t *Term) string {
	switch t.op {
	case OConst:
		switch t.sort {
		case SInt:
			return num(t.k)
		case SBool:
			return t.name
		case SStr:
			n := "str:" + t.name
			if !p.decl[n] {
				p.strs = append(p.strs, t)
			}
			p.declare(n, nil, SStr)
			return qn(n)
		default:
			n := "const:" + t.name
			if !p.decl[n] && t.sort == SFlt {
				p.flts = append(p.flts, t)
			}
			p.declare(n, nil, t.sort)
			return qn(n)
		}
	case OVar:
		p.declare(t.name, nil, t.sort)
		return qn(t.name)
	case OBound:
		return qn(t.name)
	case OApp:
		n := t.name
		var as []Sort
		for _, a := range t.args {
			as = append(as, a.sort)
		}
		if t.name == "str.cat" {
			n = fmt.Sprintf("str.cat%d", len(t.args))
		}
		p.declare(n, as, t.sort)
		if len(t.args) == 0 {
			return qn(n)
		}
		return "(" + qn(n) + p.list(t.args) + ")"
	case OLin:
		var ps []string
		for i, a := range t.args {
			if t.coef[i].Cmp(b1) == 0 {
				ps = append(ps, p.ref(a))
			} else {
				ps = append(ps, "(* "+num(t.coef[i])+" "+p.ref(a)+")")
			}
		}
		if t.k.Sign() != 0 {
			ps = append(ps, num(t.k))
		}
		if len(ps) == 1 {
			return ps[0]
		}
		return "(+ " + strings.Join(ps, " ") + ")"
	case OMul:
		if p.nl {
			return "(*" + p.list(t.args) + ")"
		}
		n := fmt.Sprintf("mul%d", len(t.args))
		var as []Sort
		for range t.args {
			as = append(as, SInt)
		}
		p.declare(n, as, SInt)
		return "(" + qn(n) + p.list(t.args) + ")"
	case ODiv:
		if t.args[1].isNum() {
			return "(div " + p.ref(t.args[0]) + " " + p.ref(t.args[1]) + ")"
		}
		p.declare("vdiv", []Sort{SInt, SInt}, SInt)
		return "(" + qn("vdiv") + p.list(t.args) + ")"
	case OIte:
		return "(ite" + p.list(t.args) + ")"
	case OEq:
		if len(t.args) == 1 {
			return "(= " + p.ref(t.args[0]) + " 0)"
		}
		return "(=" + p.list(t.args) + ")"
	case OLe:
		return "(<= " + p.ref(t.args[0]) + " 0)"
	case ONot:
		return "(not" + p.list(t.args) + ")"
	case OAnd:
		return "(and" + p.list(t.args) + ")"
	case OOr:
		return "(or" + p.list(t.args) + ")"
	case OForall:
		var vs, rng []string
		for _, v := range t.args[1:] {
			vs = append(vs, "("+qn(v.name)+" Int)")
			if v.lo != nil {
				rng = append(rng, "(<= "+num(v.lo)+" "+qn(v.name)+")")
			}
			if v.hi != nil {
				rng = append(rng, "(<= "+qn(v.name)+" "+num(v.hi)+")")
			}
		}
		body := p.ref(t.args[0])
		if len(rng) > 0 {
			body = "(=> (and " + strings.Join(rng, " ") + ") " + body + ")"
		}
		return "(forall (" + strings.Join(vs, " ") + ") " + body + ")"
	}
	panic("expr")
}

func (p *printer) list(as []*Term) string {
	var sb strings.Builder
	for _, a := range as {
		sb.WriteByte(' ')
		sb.WriteString(p.ref(a))
	}
	return sb.String()
}

func (p *printer) ref(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	e := p.expr(t)
	if t.hasBnd || len(t.args) == 0 || t.op == OForall {
		if !t.hasBnd {
			p.names[t] = e
		}
		if (t.op == OVar) && !t.hasBnd {
			p.bounds(t, e)
			p.vars = append(p.vars, t)
		}
		return e
	}
	n := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", n, sortName[t.sort], e)
	p.names[t] = n
	if t.op == OApp && t.sort == SInt {
		p.bounds(t, n)
	}
	return n
}

func (p *printer) bounds(t *Term, n string) {
	if t.sort != SInt {
		return
	}
	if t.lo != nil {
		fmt.Fprintf(p.sb, "(assert (<= %s %s))\n", num(t.lo), n)
	}
	if t.hi != nil {
		fmt.Fprintf(p.sb, "(assert (<= %s %s))\n", n, num(t.hi))
	}
}

const smtPrelude = "(declare-sort Str 0)\n(declare-sort Ifc 0)\n(declare-sort Flt 0)\n(declare-sort GSeq 0)\n(declare-sort Fn 0)\n"

// build renders a query. In non-native mode products are uninterpreted.
func (c *Ctx) build(q Query, nl bool, lem bool) (string, []*Term) {
	roots := append([]*Term{}, q.Hyps...)
	if q.Goal != nil {
		roots = append(roots, c.Not(q.Goal))
	}
	if lem {
		roots = append(roots, c.lemmas(roots)...)
	} else {
		// definitions of variable divisions are always needed
	}
	roots = append(roots, c.groundAxioms(roots)...)
	var sb bytes.Buffer
	p := &printer{c: c, sb: &sb, names: map[*Term]string{}, decl: map[string]bool{}, nl: nl}
	for _, r := range roots {
		if r.isTrue() {
			continue
		}
		e := p.ref(r)
		fmt.Fprintf(&sb, "(assert %s)\n", e)
	}
	if len(p.strs) > 1 {
		sb.WriteString("(assert (distinct")
		for _, s := range p.strs {
			sb.WriteString(" " + qn("str:"+s.name))
		}
		sb.WriteString("))\n")
	}
	if len(p.flts) > 1 {
		sb.WriteString("(assert (distinct")
		for _, s := range p.flts {
			sb.WriteString(" " + qn("const:"+s.name))
		}
		sb.WriteString("))\n")
	}
	return sb.String(), p.vars
}

// slice keeps the hypotheses connected to the goal through shared symbols.
func (c *Ctx) coi(q Query) Query {
	if q.Goal == nil {
		return q
	}
	if q.Goal.isFalse() { // the last condition of the path is the one to refute
		for i := len(q.Hyps) - 1; i >= 0; i-- {
			if h := q.Hyps[i]; h.op != OForall {
				hs := append(append([]*Term{}, q.Hyps[:i]...), q.Hyps[i+1:]...)
				q = Query{Hyps: hs, Goal: c.Not(h)}
				break
			}
		}
	}
	syms := func(t *Term, m map[*Term]bool) {
		collect([]*Term{t}, func(x *Term) {
			if x.op == OVar || x.op == OApp && len(x.args) > 0 || x.op == OForall {
				m[x] = true
			}
		})
	}
	have := map[*Term]bool{}
	syms(q.Goal, have)
	hs := make([]map[*Term]bool, len(q.Hyps))
	for i, h := range q.Hyps {
		hs[i] = map[*Term]bool{}
		syms(h, hs[i])
	}
	used := make([]bool, len(q.Hyps))
	for ch := true; ch; {
		ch = false
		for i := range q.Hyps {
			if used[i] {
				continue
			}
			conn := len(hs[i]) == 0 || q.Hyps[i].op == OForall
			for s := range hs[i] {
				if have[s] {
					conn = true
					break
				}
			}
			if conn {
				used[i], ch = true, true
				for s := range hs[i] {
					have[s] = true
				}
			}
		}
	}
	var r Query
	r.Goal = q.Goal
	for i, h := range q.Hyps {
		if used[i] {
			r.Hyps = append(r.Hyps, h)
		}
	}
	return r
}

// ---- running solvers

var solverSem = make(chan struct{}, 8)

type Stats struct {
	sync.Mutex
	Queries map[string]int
	Time    time.Duration
}

func runSolver(ctx context.Context, name string, args []string, input string) (string, time.Duration) {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if ctx.Err() != nil {
		return "unknown", 0
	}
	t := time.Now()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(input)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Run()
	return out.String(), time.Since(t)
}

type backend struct {
	label string
	name  string
	args  []string
	pre   string
	nl    bool
}

func parseStatus(out string) string {
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			if l == "timeout" {
				return "unknown"
			}
			return l
		}
		if strings.HasPrefix(l, "(error") {
			return "error:" + l
		}
	}
	return "unknown"
}

func parseModel(out string, vars []*Term) map[string]string {
	i := strings.Index(out, "sat")
	if i < 0 {
		return nil
	}
	m := map[string]string{}
	for _, v := range vars {
		k := qn(v.name)
		bare := strings.Trim(k, "|")
		for _, pat := range []string{"(" + k + " ", "(" + bare + " "} {
			if j := strings.Index(out, pat); j >= 0 {
				s := out[j+len(pat):]
				d := 0
				e := 0
				for e < len(s) {
					if s[e] == '(' {
						d++
					}
					if s[e] == ')' {
						if d == 0 {
							break
						}
						d--
					}
					e++
				}
				x := strings.TrimSpace(s[:e])
				x = strings.ReplaceAll(strings.ReplaceAll(x, "(- ", "-"), ")", "")
				m[v.name] = x
				break
			}
		}
	}
	return m
}

// Prove tries to discharge a query with the portfolio.
func (c *Ctx) Prove(q Query, budget time.Duration) Result {
	if q.Goal != nil {
		if q.Goal.isTrue() {
			return Result{Status: "unsat", Backend: "normaliser"}
		}
		for _, h := range q.Hyps {
			if h == q.Goal {
				return Result{Status: "unsat", Backend: "normaliser"}
			}
		}
	}
	for _, h := range q.Hyps {
		if h.isFalse() {
			return Result{Status: "unsat", Backend: "normaliser"}
		}
	}
	start := time.Now()
	q = c.coi(q)
	// case split on a small single-variable goal is handled by tabulation in the simplifier
	lin, lv := c.build(q, false, true)
	gv := func(vars []*Term) string {
		if len(vars) == 0 {
			return ""
		}
		var sb strings.Builder
		sb.WriteString("(get-value (")
		n := 0
		for _, v := range vars {
			if v.sort == SInt || v.sort == SBool {
				sb.WriteString(qn(v.name) + " ")
				n++
			}
		}
		if n == 0 {
			return ""
		}
		sb.WriteString("))\n")
		return sb.String()
	}
	ctx := context.Background()
	if plain, _ := c.build(q, false, false); len(plain) < len(lin) {
		// nonlinear terms as opaque values
		out, _ := runSolver(ctx, "z3-new", []string{"-in", "-T:1"}, smtPrelude+plain+"(check-sat)\n")
		if parseStatus(out) == "unsat" {
			return Result{Status: "unsat", Backend: "z3-new/lia", Time: time.Since(start)}
		}
	}
	in := smtPrelude + lin + "(check-sat)\n"
	out, _ := runSolver(ctx, "z3-new", []string{"-in", "-T:4"}, in)
	st := parseStatus(out)
	if st == "unsat" {
		return Result{Status: "unsat", Backend: "z3-new/lia+lemmas", Time: time.Since(start)}
	}
	if strings.HasPrefix(st, "error") {
		return Result{Status: st, Backend: "z3-new", SMT: in}
	}
	hasMul := strings.Contains(lin, "|mul2|") || strings.Contains(lin, "|mul3|") || strings.Contains(lin, "|mul4|")
	hasQ := false
	for _, h := range q.Hyps {
		if h.op == OForall {
			hasQ = true
		}
	}
	if st == "sat" && !hasMul && !hasQ {
		out, _ := runSolver(ctx, "z3-new", []string{"-in", "-T:5"}, in+gv(lv))
		return Result{Status: "sat", Backend: "z3-new/lia", Time: time.Since(start), Model: parseModel(out, lv), SMT: in}
	}
	nat, nv := c.build(q, true, true)
	secs := int(budget.Seconds())
	if secs < 2 {
		secs = 2
	}
	natIn := smtPrelude + nat + "(check-sat)\n"
	bs := []backend{
		{"z3-new/nia", "z3-new", []string{"-in", fmt.Sprintf("-T:%d", secs)}, "", true},
		{"cvc5/nia", "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000), "--produce-models"}, "(set-logic ALL)\n", true},
		{"z3/nia", "z3", []string{"-in", fmt.Sprintf("-T:%d", secs)}, "", true},
		{"cvc5/lia+lemmas", "cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000)}, "(set-logic ALL)\n", false},
	}
	type res struct {
		st, out string
		b       backend
	}
	cctx, cancel := context.WithTimeout(ctx, budget+3*time.Second)
	defer cancel()
	ch := make(chan res, len(bs))
	for _, b := range bs {
		go func(b backend) {
			in := natIn + gv(nv)
			if !b.nl {
				in = smtPrelude + lin + "(check-sat)\n"
			}
			out, _ := runSolver(cctx, b.name, b.args, b.pre+in)
			ch <- res{parseStatus(out), out, b}
		}(b)
	}
	best := Result{Status: "unknown", SMT: natIn}
	for range bs {
		r := <-ch
		if r.st == "unsat" {
			return Result{Status: "unsat", Backend: r.b.label, Time: time.Since(start)}
		}
		if r.st == "sat" && r.b.nl {
			best = Result{Status: "sat", Backend: r.b.label, Time: time.Since(start), Model: parseModel(r.out, nv), SMT: natIn}
			return best
		}
		if strings.HasPrefix(r.st, "error") {
			best.Backend = r.b.label + " " + r.st
		}
	}
	best.Time = time.Since(start)
	return best
}

// ---- a persistent solver for quick feasibility questions

type Quick struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	c     *Ctx
	cache map[string]string
	N     int
	T     time.Duration
}

func NewQuick(c *Ctx) *Quick { return &Quick{c: c, cache: map[string]string{}} }

func (k *Quick) start() {
	k.cmd = exec.Command("z3-new", "-in")
	k.in, _ = k.cmd.StdinPipe()
	o, _ := k.cmd.StdoutPipe()
	k.out = bufio.NewReaderSize(o, 1<<16)
	if err := k.cmd.Start(); err != nil {
		panic(err)
	}
	io.WriteString(k.in, "(set-option :timeout 250)\n"+smtPrelude)
}

func (k *Quick) Close() {
	if k.cmd != nil {
		k.in.Close()
		k.cmd.Process.Kill()
		k.cmd.Wait()
		k.cmd = nil
	}
}

func (k *Quick) Check(q Query) string {
	q = k.c.coi(q)
	var kb strings.Builder
	for _, h := range q.Hyps {
		fmt.Fprintf(&kb, "%d,", h.id)
	}
	if q.Goal != nil {
		fmt.Fprintf(&kb, "g%d", q.Goal.id)
	}
	key := kb.String()
	if r, ok := k.cache[key]; ok {
		return r
	}
	t := time.Now()
	k.N++
	if k.cmd == nil || k.N%400 == 0 {
		k.Close()
		k.start()
	}
	s, _ := k.c.build(q, false, true)
	io.WriteString(k.in, "(push)\n"+s+"(check-sat)\n(pop)\n(echo \"done\")\n")
	r := "unknown"
	for {
		l, err := k.out.ReadString('\n')
		if err != nil {
			k.Close()
			break
		}
		l = strings.TrimSpace(l)
		if l == "done" {
			break
		}
		if l == "sat" || l == "unsat" {
			r = l
		}
		if strings.HasPrefix(l, "(error") {
			panic("quick solver: " + l + "\n" + s)
		}
	}
	k.T += time.Since(t)
	if os.Getenv("GOVC_QUICK") != "" && time.Since(t) > 100*time.Millisecond {
		g := "-"
		if q.Goal != nil {
			g = k.c.Show(q.Goal)
		}
		fmt.Fprintf(os.Stderr, "QUICK %s %d hyps %dms %s\n", r, len(q.Hyps), time.Since(t).Milliseconds(), g)
		if f := os.Getenv("GOVC_QUICK"); f != "1" && k.N%50 == 0 {
			os.WriteFile(f+fmt.Sprint(k.N)+".smt2", []byte(s), 0o644)
		}
	}
	k.cache[key] = r
	return r
}
