package main

// The check of one property: prove every obligation, replay, report.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

type failure struct {
	Key    string // contract/label
	Detail string
	Model  map[string]string
}

type replayResult struct {
	Ran   bool
	Tried int
	Fail  string
	Err   string
	Cmd   string
	Note  []string
}

func check(repo, verif, prop string, par int) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	outDir := filepath.Join(verif, "out")
	os.MkdirAll(outDir, 0o755)
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)

	e, err := Load(loadFor(repo, verif, []string{prop}))
	if err != nil {
		fmt.Println("cannot load the code:", err)
		return 2
	}
	var hs []*Harness
	later := 0
	for _, h := range e.Harness {
		if h.Prop != prop {
			continue
		}
		if h.Tier == "thorough" && tier != "thorough" {
			later++
			continue
		}
		hs = append(hs, h)
	}
	scale := 1
	if tier == "thorough" {
		scale = 4
	}
	// the replay of real code runs beside the proofs
	rep := make(chan replayResult, 1)
	go func() { rep <- replay(repo, verif, prop, seed, tier, 4, nil) }()
	rs := e.runAll(hs, par, scale)
	first := <-rep

	var fails []failure
	total, done := 0, 0
	backs := map[string]int{}
	var solver time.Duration
	used, inlined, modular, loops := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	var contracts []map[string]interface{}
	var samples []interface{}
	ints := map[string]bool{}
	for _, r := range rs {
		ok := 0
		total += len(r.Obls) + r.Trivial
		done += r.Trivial
		backs["simplifier"] += r.Trivial
		for _, o := range r.Obls {
			solver += o.Time
			if o.Status == "unsat" {
				ok++
				done++
				backs[o.Back]++
				continue
			}
			for _, v := range o.Model {
				ints[v] = true
			}
			if o.Status != "skipped" {
				fails = append(fails, failure{r.H.Name + "/" + o.Label, fmt.Sprintf("%s obligation %q of %s, in %s: solver says %s (%s)", o.Kind, o.Label, r.H.Name, o.Where, o.Status, o.Back), o.Model})
			}
		}
		if r.Err != "" {
			total++
			fails = append(fails, failure{r.H.Name + "/executed", "contract " + r.H.Name + ": " + r.Err, nil})
		}
		if r.Vacuous != "" && r.Err == "" {
			total++
			fails = append(fails, failure{r.H.Name + "/vacuity", "contract " + r.H.Name + ": " + r.Vacuous, nil})
		}
		for _, u := range r.Used {
			used[u] = true
		}
		for _, u := range r.Inlined {
			if !strings.Contains(u, ".contract_") {
				inlined[u] = true
			}
		}
		for _, u := range r.Modular {
			modular[u] = true
		}
		for k, v := range r.Loops {
			loops[k+": "+v] = true
		}
		contracts = append(contracts, map[string]interface{}{"contract": r.H.Name, "target": r.H.Target, "paths": r.Paths, "obligations": len(r.Obls) + r.Trivial, "discharged": ok + r.Trivial, "seconds": round(r.Total.Seconds())})
		if len(r.Obls) > 0 && len(samples) < 4 {
			o := r.Obls[len(r.Obls)-1]
			samples = append(samples, fmt.Sprintf("%s [%s] %s: %s by %s", r.H.Name, o.Kind, o.Label, o.Status, o.Back))
		}
	}
	var notes []string
	for n, m := range e.Dropped {
		if !strings.Contains(","+e.DropProp[n]+",", ","+prop+",") {
			continue
		}
		if exportedTarget(e.DropTarget[n]) {
			total++
			fails = append(fails, failure{n + "/present", "contract " + n + " no longer fits the code: " + m, nil})
		} else {
			notes = append(notes, "contract on an internal function not applicable to the current code: "+n+": "+m)
		}
	}
	if len(hs) == 0 {
		fails = append(fails, failure{"none/present", "no contract of this property fits the code", nil})
	}
	sort.Slice(fails, func(i, j int) bool { return fails[i].Key < fails[j].Key })

	known := readKnown(verif, prop)
	var open []failure
	for _, f := range fails {
		if txt, ok := known[f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, txt)
			continue
		}
		open = append(open, f)
	}
	rr := first
	if len(open) > 0 && rr.Fail == "" {
		// search longer, with the numbers of the solver's counterexamples
		rr = replay(repo, verif, prop, seed, tier, 45, sortedKeys(ints))
		rr.Tried += first.Tried
	}
	code := 0
	if rr.Fail != "" || len(open) > 0 {
		code = 1
		path := filepath.Join(outDir, prop+".replay.txt")
		var b bytes.Buffer
		fmt.Fprintf(&b, "property %s\n", prop)
		if rr.Fail != "" {
			fmt.Fprintf(&b, "\nfailing input, found by running the real code:\n%s\n\nrun again: %s\n", rr.Fail, rr.Cmd)
		}
		fmt.Fprintf(&b, "\nobligations that were not discharged: %d\n", len(open))
		for i, f := range open {
			if i < 40 {
				fmt.Fprintf(&b, "- %s\n  %s\n", f.Key, f.Detail)
				for _, k := range sortedKeys(f.Model) {
					fmt.Fprintf(&b, "    %s = %s\n", k, f.Model[k])
				}
			}
		}
		os.WriteFile(path, b.Bytes(), 0o644)
		for i, f := range open {
			if i < 6 {
				fmt.Println("not discharged:", f.Key, "-", clip(f.Detail))
			}
		}
		if rr.Fail != "" {
			fmt.Println(rr.Fail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
		}
	}
	if rr.Err != "" {
		notes = append(notes, "replay: "+clip(rr.Err))
	}
	notes = append(notes, rr.Note...)

	assumptions := sortedKeys(used)
	for _, h := range hs {
		assumptions = append(assumptions, e.Assumes[h.Pkg]...)
	}
	sort.Strings(assumptions)
	assumptions = uniq(assumptions)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": total, "discharged": done,
			"checker_cmd":                "bin/govc check " + prop,
			"trusted_base":               []string{"govc, the verification-condition generator in /verif/govc", "golang.org/x/tools/go/ssa as the meaning of Go source", "z3 4.8.12, z3 5, cvc5 1.1.2"},
			"contracts":                  contracts,
			"functions_executed":         sortedKeys(inlined),
			"modular_contracts_used":     sortedKeys(modular),
			"loops":                      sortedKeys(loops),
			"discharged_by":              backs,
			"solver_seconds":             round(solver.Seconds()),
			"contracts_left_to_thorough": later,
			"samples":                    samples,
			"replay_cross_check":         map[string]interface{}{"bounded": true, "counted_as_proof": false, "ran": rr.Ran, "inputs": rr.Tried},
			"notes":                      notes,
		},
		"assumptions": assumptions,
		"wall_s":      round(time.Since(start).Seconds()),
		"violations":  len(open),
	}
	if rr.Fail != "" && len(open) == 0 {
		ev["violations"] = 1
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d contracts, %d of %d obligations discharged, %d inputs cross-checked, %.1fs\n", prop, len(rs), done, total, rr.Tried, time.Since(start).Seconds())
	return code
}

func uniq(s []string) []string {
	var r []string
	for i, x := range s {
		if i == 0 || s[i-1] != x {
			r = append(r, x)
		}
	}
	return r
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func exportedTarget(t string) bool {
	i := strings.LastIndex(t, ".")
	n := t[i+1:]
	return n != "" && n[0] >= 'A' && n[0] <= 'Z'
}

// readKnown lists the recorded findings of a property: contract/label -> text.
func readKnown(verif, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return m
	}
	re := regexp.MustCompile(`^known: property=(\S+) obligation="([^"]*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if s := re.FindStringSubmatch(l); s != nil && s[1] == prop {
			m[s[2]] = s[3]
		}
	}
	return m
}

// replay runs the concrete test of a property on the real code.
func replay(repo, verif, prop string, seed int, tier string, seconds int, ints []string) (r replayResult) {
	dirs, _ := filepath.Glob(filepath.Join(verif, "replay", "*"))
	for _, d := range dirs {
		own := filepath.Join(d, strings.ToLower(prop)+"_test.go")
		if _, err := os.Stat(own); err != nil {
			continue
		}
		pkg := filepath.Base(d)
		rel := pkg
		if pkg == "root" {
			rel = "."
		}
		pd := filepath.Join(repo, rel)
		ov := map[string]string{}
		old, _ := filepath.Glob(filepath.Join(pd, "*_test.go"))
		for _, f := range old {
			ov[f] = ""
		}
		ov[filepath.Join(pd, "zz_verif_"+strings.ToLower(prop)+"_test.go")] = own
		commons, _ := filepath.Glob(filepath.Join(d, "common*_test.go"))
		for _, c := range commons {
			ov[filepath.Join(pd, "zz_verif_"+filepath.Base(c))] = c
		}
		ov[filepath.Join(repo, "internal", "vreplay", "vreplay.go")] = filepath.Join(verif, "replay", "vreplay", "vreplay.go")
		js, _ := json.Marshal(map[string]interface{}{"Replace": ov})
		of := filepath.Join(verif, "out", prop+".overlay.json")
		os.WriteFile(of, js, 0o644)
		args := []string{"test", "-vet=off", "-count=1", "-v", "-timeout", fmt.Sprint(seconds*4+120, "s"), "-overlay", of, "-run", "^TestReplay_" + prop + "$"}
		if pkg == "xcf" {
			args = append(args, "-modfile="+stubMod(verif))
		}
		args = append(args, "./"+rel)
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(seconds*4+180)*time.Second)
		cmd := exec.CommandContext(ctx, "go", args...)
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", fmt.Sprintf("REPLAY_SEED=%d", seed), fmt.Sprintf("REPLAY_SECONDS=%d", seconds), "REPLAY_INTS="+strings.Join(ints, ","), "VERIF_TIER="+tier)
		out, err := cmd.CombinedOutput()
		cancel()
		r.Ran = true
		r.Cmd = fmt.Sprintf("cd %s && GOFLAGS=-mod=mod REPLAY_SEED=%d REPLAY_SECONDS=%d REPLAY_INTS=%s go %s", repo, seed, seconds, strings.Join(ints, ","), strings.Join(args, " "))
		for _, l := range strings.Split(string(out), "\n") {
			if n, ok := strings.CutPrefix(strings.TrimSpace(l), "REPLAY-TRIED "); ok {
				k, _ := strconv.Atoi(n)
				r.Tried += k
			}
			if f, ok := strings.CutPrefix(strings.TrimSpace(l), "REPLAY-FAIL "); ok && r.Fail == "" {
				r.Fail = f
			}
		}
		if err != nil && r.Fail == "" {
			s := string(out)
			if strings.Contains(s, "[build failed]") || strings.Contains(s, "[setup failed]") {
				r.Err = "the replay does not build against the current code: " + s
				r.Note = append(r.Note, "replay not built")
			} else if i := strings.Index(s, "panic:"); i >= 0 {
				r.Fail = "the real code panics: " + clip(s[i:])
			} else if strings.Contains(s, "fatal error:") {
				r.Fail = "the real code fails: " + clip(s[strings.Index(s, "fatal error:"):])
			} else {
				r.Err = s
			}
		}
	}
	return r
}

// stubMod writes a go.mod that takes the modules that are not in the sandbox from stubs.
func stubMod(verif string) string {
	d := filepath.Join(verif, "out", "stubs")
	os.MkdirAll(d, 0o755)
	t := "module vimagination.zapto.org/limage\n\ngo 1.19\n"
	for _, m := range []string{"byteio", "memio", "parser"} {
		t += fmt.Sprintf("\nrequire vimagination.zapto.org/%s v1.0.0\nreplace vimagination.zapto.org/%s => %s\n", m, m, filepath.Join(verif, "stubs", m))
	}
	f := filepath.Join(d, "go.mod")
	if old, err := os.ReadFile(f); err != nil || string(old) != t {
		os.WriteFile(f, []byte(t), 0o644)
	}
	return f
}
