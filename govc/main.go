package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type HResult struct {
	H       *Harness
	Obls    []*Obligation
	Trivial int
	Paths   int
	Err     string
	Vacuous string
	Used    []string
	Inlined []string
	Modular []string
	Loops   map[string]string
	Labels  map[string]int
	Assumes int
	Exec    time.Duration
	Total   time.Duration
	QuickN  int
	QuickT  time.Duration
}

func NewEx(e *Engine, h *Harness, limit time.Duration) *Ex {
	c := NewCtx()
	return &Ex{eng: e, c: c, quick: NewQuick(c), h: h, leafMemo: map[types.Type][]leaf{}, deadline: time.Now().Add(limit),
		globals: map[*ssa.Global]*Term{}, gInit: map[int]*ssa.Global{}, gVals: map[int]Val{}, used: map[string]bool{}, inlined: map[string]bool{},
		loopSeen: map[string]string{}, modUsed: map[string]bool{}, objTyp: map[int]types.Type{}, labels: map[string]int{}}
}

var verbose = flag.Bool("v", false, "verbose")
var dumpDir = flag.String("dump", "", "write failed queries here")

func (e *Engine) runHarness(h *Harness, scale int) *HResult {
	r := &HResult{H: h}
	start := time.Now()
	lim := time.Duration(h.Timeout*scale) * 6 * time.Second
	x := NewEx(e, h, lim)
	defer x.quick.Close()
	var outs []Outcome
	func() {
		defer func() {
			if p := recover(); p != nil {
				switch p := p.(type) {
				case unsup:
					r.Err = "unsupported: " + p.msg + " (in " + x.where() + ")"
				case pathLimit:
					r.Err = "limit: " + p.msg
				case forkReq:
					r.Err = "undecided condition outside of an instruction: " + x.c.Show(p.cond)
				default:
					r.Err = fmt.Sprint("internal: ", p)
					if debugCand {
						os.Stderr.Write(debug.Stack())
					}
					if *verbose {
						debug.PrintStack()
					}
				}
			}
		}()
		st := &State{}
		var args []Val
		for _, p := range h.Fn.Params {
			args = append(args, x.fresh(st, p.Type(), p.Name()))
		}
		outs = x.callFn(st, h.Fn, args, nil)
	}()
	r.Exec = time.Since(start)
	r.Paths, r.Trivial = x.paths, x.trivial
	if r.Err == "" {
		// vacuity: some path must reach the end of the contract
		ok := false
		for _, o := range outs {
			if o.kind == oRet && !o.st.dead && x.quick.Check(Query{Hyps: x.hyps(o.st)}) != "unsat" {
				ok = true
				break
			}
		}
		if !ok {
			r.Vacuous = "no execution satisfies the preconditions"
		}
		cov := map[string]bool{}
		for _, cv := range x.covers {
			if cov[cv.label] {
				continue
			}
			cov[cv.label] = x.quick.Check(Query{Hyps: cv.hyps}) != "unsat"
		}
		for l, ok := range cov {
			if !ok {
				r.Vacuous = "unreachable: " + l
			}
		}
		if len(x.labels) == 0 {
			r.Vacuous = "no postcondition was reached"
		}
	}
	// prove
	seen := map[string]*Obligation{}
	var todo []*Obligation
	for _, o := range x.obls {
		var kb strings.Builder
		fmt.Fprintf(&kb, "%s|%d|", o.Label, o.Goal.id)
		for _, hp := range o.Hyps {
			fmt.Fprintf(&kb, "%d,", hp.id)
		}
		k := kb.String()
		if _, ok := seen[k]; ok {
			continue
		}
		seen[k] = o
		todo = append(todo, o)
	}
	fails := map[string]int{}
	for _, o := range todo {
		if fails[o.Label] >= 2 || len(fails) > 6 {
			o.Status = "skipped"
			continue
		}
		if time.Since(start) > lim {
			o.Status = "unknown"
			o.Back = "time limit of the contract"
			fails[o.Label]++
			continue
		}
		x.prove(o, time.Duration(h.Timeout*scale)*time.Second)
		if o.Status != "unsat" {
			fails[o.Label]++
		}
	}
	r.Obls = todo
	r.Used, r.Inlined, r.Modular = sortedKeys(x.used), sortedKeys(x.inlined), sortedKeys(x.modUsed)
	r.Loops, r.Labels, r.Assumes = x.loopSeen, x.labels, x.assumes
	r.Total = time.Since(start)
	r.QuickN, r.QuickT = x.quick.N, x.quick.T
	return r
}

// prove prepares quantifiers and runs the portfolio.
func (x *Ex) prove(o *Obligation, budget time.Duration) {
	c := x.c
	t0 := time.Now()
	hyps := append([]*Term{}, o.Hyps...)
	goal := o.Goal
	var prep func(t *Term) *Term
	prep = func(t *Term) *Term {
		switch {
		case t.op == OForall:
			m := map[*Term]*Term{}
			for _, v := range t.args[1:] {
				m[v] = c.Var("sk", SInt, v.lo, v.hi)
			}
			return prep(c.Subst(t.args[0], m))
		case t.op == OAnd:
			var r []*Term
			for _, a := range t.args {
				r = append(r, prep(a))
			}
			return c.And(r...)
		case t.op == OOr:
			var r []*Term
			for _, a := range t.args {
				if a.op == ONot && a.args[0].op == OForall {
					hyps = append(hyps, a.args[0])
					continue
				}
				r = append(r, prep(a))
			}
			return c.Or(r...)
		case t.op == ONot && t.args[0].op == OForall:
			hyps = append(hyps, t.args[0])
			return c.False
		}
		return t
	}
	goal = prep(goal)
	// assume the negations of the disjuncts' simple literals to help instantiation
	q := Query{Hyps: hyps, Goal: goal}
	insts := x.instantiate(q)
	var ground []*Term
	for _, h := range q.Hyps {
		if h.op != OForall {
			ground = append(ground, h)
		}
	}
	q1 := Query{Hyps: append(ground, insts...), Goal: goal}
	var r Result
	if t := time.Now(); !goal.isTrue() && x.quick.Check(q1) == "unsat" {
		r = Result{Status: "unsat", Backend: "z3-new/lia+lemmas", Time: time.Since(t)}
	} else {
		r = c.Prove(q1, budget)
	}
	if r.Status != "unsat" && len(ground) != len(q.Hyps) {
		q2 := Query{Hyps: append(append([]*Term{}, q.Hyps...), insts...), Goal: goal}
		r2 := c.Prove(q2, budget)
		if r2.Status == "unsat" || r.Status != "sat" {
			r = r2
		}
	}
	o.Status, o.Back, o.Time, o.Model, o.SMT = r.Status, r.Backend, r.Time, r.Model, r.SMT
	if t := time.Since(t0); os.Getenv("GOVC_SLOW") != "" && r.Status == "unsat" && t > 1500*time.Millisecond {
		fmt.Fprintf(os.Stderr, "SLOW %.1f of %v mute=%d %s %s %q\n", t.Seconds(), budget, x.mute, r.Backend, x.h.Name, o.Label)
	}
	if *verbose && x.mute == 0 && r.Status != "unsat" {
		fmt.Printf("--- %s %s [%s] %s\n", r.Status, o.Label, o.Kind, r.Backend)
		for _, h := range q.Hyps {
			fmt.Println("   H ", clip(c.Show(h)))
		}
		for _, h := range insts {
			fmt.Println("   I ", clip(c.Show(h)))
		}
		fmt.Println("   |- ", clip(c.Show(goal)))
		for _, k := range sortedKeys(r.Model) {
			fmt.Printf("   %s = %s\n", k, r.Model[k])
		}
	}
	if *dumpDir != "" && x.mute == 0 && r.Status != "unsat" {
		os.WriteFile(filepath.Join(*dumpDir, fmt.Sprintf("%s_%d.smt2", x.h.Name, goal.id)), []byte(r.SMT), 0o644)
	}
}

// matchInner gives the values of b for which an application in the body, with
// the variables of m replaced, is one of the known applications.
func (x *Ex) matchInner(body, b *Term, m map[*Term]*Term, apps map[string][]*Term) []*Term {
	c := x.c
	set := map[*Term]bool{}
	collect([]*Term{body}, func(t *Term) {
		if t.op != OApp || !t.hasBnd {
			return
		}
		for j, a := range t.args {
			if a.sort != SInt || !a.hasBnd {
				continue
			}
			k := c.toPoly(a).m[b]
			if k == nil || k.CmpAbs(b1) != 0 {
				continue
			}
			rest := c.Subst(c.Sub(c.noWrap(a), c.Scale(b, k)), m)
			if rest.hasBnd {
				continue
			}
			for _, g := range apps[t.name] {
				if len(set) < 6 && len(g.args) == len(t.args) {
					set[c.Scale(c.Sub(g.args[j], rest), k)] = true
				}
			}
		}
	})
	return sortTerms(set)
}

// noWrap drops the parts of a sum that only bring it into the range of its
// type. It is for guessing instances.
func (c *Ctx) noWrap(t *Term) *Term {
	if t.op != OLin {
		return t
	}
	p := c.toPoly(t)
	m := map[*Term]*big.Int{}
	for a, k := range p.m {
		if a.op == ODiv && a.hasBnd && a.args[1].isNum() && new(big.Int).Abs(k).Cmp(a.args[1].k) == 0 && k.BitLen() > 8 {
			continue
		}
		m[a] = k
	}
	return c.fromPoly(poly{p.k, m})
}

// instantiate produces ground instances of the quantified hypotheses.
func (x *Ex) instantiate(q Query) []*Term {
	c := x.c
	var qs []*Term
	var gs []*Term
	for _, h := range q.Hyps {
		if h.op == OForall {
			qs = append(qs, h)
		} else {
			gs = append(gs, h)
		}
	}
	if len(qs) == 0 {
		return nil
	}
	var out []*Term
	have := map[*Term]bool{}
	for round := 0; round < 2; round++ {
		roots := append(append(append([]*Term{}, gs...), q.Goal), out...)
		vars := map[*Term]bool{}
		apps := map[string][]*Term{}
		collect(append([]*Term{q.Goal}, out...), func(t *Term) {
			if t.op == OVar && t.sort == SInt {
				vars[t] = true
			}
		})
		collect(roots, func(t *Term) {
			if t.op == OApp && len(t.args) > 0 && !t.hasBnd {
				apps[t.name] = append(apps[t.name], t)
			}
		})
		if len(vars) < 4 {
			collect(gs, func(t *Term) {
				if t.op == OVar && t.sort == SInt && len(vars) < 12 {
					vars[t] = true
				}
			})
		}
		vl := sortTerms(vars)
		if len(vl) > 10 {
			vl = vl[len(vl)-10:]
		}
		n0 := len(out)
		for _, f := range qs {
			bs := f.args[1:]
			cands := make([][]*Term, len(bs))
			for i, b := range bs {
				set := map[*Term]bool{}
				// pattern: application arguments that are linear in b alone
				collect([]*Term{f.args[0]}, func(t *Term) {
					if t.op != OApp || !t.hasBnd {
						return
					}
					for j, a := range t.args {
						if a.sort != SInt {
							continue
						}
						p := c.toPoly(a)
						k := p.m[b]
						if k == nil || k.CmpAbs(b1) != 0 {
							continue
						}
						rest := c.Sub(c.noWrap(a), c.Scale(b, k))
						if rest.hasBnd {
							continue
						}
						for _, g := range apps[t.name] {
							if len(set) > 12 {
								break
							}
							if len(g.args) == len(t.args) {
								set[c.Scale(c.Sub(g.args[j], rest), k)] = true
							}
						}
					}
				})
				if len(set) == 0 || len(bs) > 1 {
					for _, v := range vl {
						if len(set) < 14 {
							set[v] = true
						}
					}
				}
				cands[i] = sortTerms(set)
			}
			var rec func(i int, m map[*Term]*Term)
			cnt := 0
			rec = func(i int, m map[*Term]*Term) {
				if cnt > 200 {
					return
				}
				if i == len(bs) {
					cnt++
					t := c.Subst(f.args[0], m)
					if !t.isTrue() && !have[t] && !t.hasBnd {
						have[t] = true
						out = append(out, t)
					}
					return
				}
				done := map[*Term]bool{}
				for _, v := range cands[i] {
					done[v] = true
					m[bs[i]] = v
					rec(i+1, m)
				}
				if i > 0 { // patterns that also depend on the variables before
					delete(m, bs[i])
					for _, v := range x.matchInner(f.args[0], bs[i], m, apps) {
						if !done[v] {
							done[v] = true
							m[bs[i]] = v
							rec(i+1, m)
						}
					}
				}
				delete(m, bs[i])
			}
			rec(0, map[*Term]*Term{})
		}
		if len(out) == n0 || len(out) > 150 {
			break
		}
	}
	return out
}

func clip(s string) string {
	s = strings.ReplaceAll(s, modPath, "@")
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func main() {
	if f := os.Getenv("GOVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	only := flag.String("only", "", "run only contracts whose name contains this")
	par := flag.Int("p", 6, "parallel contracts")
	scale := flag.Int("scale", 1, "multiply time limits")
	flag.Parse()
	if flag.NArg() < 1 {
		fmt.Fprintln(os.Stderr, "usage: govc run <property>...|check <property>")
		os.Exit(2)
	}
	switch flag.Arg(0) {
	case "run":
		e, err := Load(loadFor(*repo, *verif, flag.Args()[1:]))
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(2)
		}
		for n, m := range e.Dropped {
			fmt.Println("dropped", n, m)
		}
		var hs []*Harness
		for _, h := range e.Harness {
			for _, p := range flag.Args()[1:] {
				if h.Prop == p && strings.Contains(h.Name, *only) {
					hs = append(hs, h)
				}
			}
		}
		for _, r := range e.runAll(hs, *par, *scale) {
			report(r)
		}
	case "check":
		os.Exit(check(*repo, *verif, flag.Arg(1), *par))
	}
}

func loadFor(repo, verif string, props []string) loadOpts {
	o := loadOpts{repo: repo, contracts: filepath.Join(verif, "contracts"), patterns: []string{modPath, modPath + "/internal", modPath + "/lcolor", modPath + "/ora"}}
	for _, p := range props {
		if p >= "C30" {
			o.patterns = append(o.patterns, modPath+"/xcf")
			o.flags = append(o.flags, "-modfile="+stubMod(verif))
			break
		}
	}
	return o
}

func (e *Engine) runAll(hs []*Harness, par, scale int) []*HResult {
	rs := make([]*HResult, len(hs))
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	for i, h := range hs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			rs[i] = e.runHarness(h, scale)
		}()
	}
	wg.Wait()
	return rs
}

func report(r *HResult) {
	st := map[string]int{}
	for _, o := range r.Obls {
		st[o.Status]++
	}
	js, _ := json.Marshal(st)
	fmt.Printf("%-44s paths=%-4d obl=%d+%d %s exec=%.1fs total=%.1fs quick=%d/%.1fs %s %s\n", r.H.Name, r.Paths, len(r.Obls), r.Trivial, js, r.Exec.Seconds(), r.Total.Seconds(), r.QuickN, r.QuickT.Seconds(), r.Err, r.Vacuous)
	var bad []string
	for _, o := range r.Obls {
		if o.Status != "unsat" && o.Status != "skipped" {
			bad = append(bad, fmt.Sprintf("   FAILED %s [%s] %s: %s in %s", o.Label, o.Kind, o.Status, o.Back, o.Where))
		}
	}
	sort.Strings(bad)
	for i, b := range bad {
		if i > 8 {
			break
		}
		fmt.Println(b)
	}
	if *verbose {
		fmt.Println("  used:", r.Used, "loops:", r.Loops, "inlined:", r.Inlined)
	}
}
