package main

// Loading /repo together with the contract files and building SSA.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// modEntry is a contract that stands for calls of a function, in some properties or all.
type modEntry struct {
	fn    *ssa.Function
	props map[string]bool
}

type Harness struct {
	Prop      string
	Kind      string // contract, lemma
	Target    string // SSA name of the function under contract
	Rel       string
	Name      string
	Fn        *ssa.Function
	Abstract  map[string]bool
	Merge     bool
	Enclosing bool // offered invariants can speak about the numbers of the loops around
	Narrow    bool
	Timeout   int
	Tier      string // "" or thorough
	Doc       string
	Pkg       string
	Slow      bool
}

type Engine struct {
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package
	mu         sync.RWMutex
	typeIDs    map[string]int
	typeList   []types.Type
	fns        map[string]*ssa.Function
	loops      map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	models     map[string][]*modEntry
	modular    map[string][]*modEntry
	opaque     map[string]bool
	invs       map[string][]*ssa.Function
	maxMake    interface{}
	Harness    []*Harness
	Dropped    map[string]string // overlay function -> reason
	DropProp   map[string]string
	DropTarget map[string]string
	Assumes    map[string][]string // by package
	Shadow     map[string]types.Type
}

const modPath = "vimagination.zapto.org/limage"

func (e *Engine) addType(n string, t types.Type) {
	e.typeList = append(e.typeList, t)
	e.typeIDs[n] = len(e.typeList)
}

func (e *Engine) tid(n string) int {
	e.mu.RLock()
	defer e.mu.RUnlock()
	return e.typeIDs[n]
}

func (e *Engine) typeByName(n string) types.Type {
	e.mu.RLock()
	defer e.mu.RUnlock()
	if i, ok := e.typeIDs[n]; ok {
		return e.typeList[i-1]
	}
	return nil
}

func (e *Engine) typeByID(i int) types.Type {
	e.mu.RLock()
	defer e.mu.RUnlock()
	if i < 1 || i > len(e.typeList) {
		return nil
	}
	return e.typeList[i-1]
}

func (e *Engine) fnByName(n string) *ssa.Function {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.fns == nil {
		e.fns = map[string]*ssa.Function{}
		for f := range ssautil.AllFunctions(e.prog) {
			e.fns[f.String()] = f
		}
	}
	return e.fns[n]
}

func (e *Engine) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	e.mu.Lock()
	defer e.mu.Unlock()
	if l, ok := e.loops[fn]; ok {
		return l
	}
	l := findLoops(fn)
	e.loops[fn] = l
	return l
}

func (e *Engine) invFor(fn *ssa.Function, idx int) []*ssa.Function {
	return e.invs[fmt.Sprintf("%s#%d", fn.String(), idx)]
}

// overlay builds the overlay of contract files.
func overlay(repo, contracts string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	err := filepath.Walk(contracts, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(contracts, p)
		dir := filepath.Dir(rel)
		dst := ""
		switch dir {
		case "vspec":
			dst = filepath.Join(repo, "internal", "vspec")
		case "root":
			dst = repo
		default:
			dst = filepath.Join(repo, dir)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		ov[filepath.Join(dst, "zz_contract_"+filepath.Base(p))] = b
		return nil
	})
	return ov, err
}

type loadOpts struct {
	repo, contracts string
	patterns        []string
	flags           []string
}

func Load(o loadOpts) (*Engine, error) {
	ov, err := overlay(o.repo, o.contracts)
	if err != nil {
		return nil, err
	}
	e := &Engine{pkgs: map[string]*ssa.Package{}, typeIDs: map[string]int{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, models: map[string][]*modEntry{}, modular: map[string][]*modEntry{}, opaque: map[string]bool{}, invs: map[string][]*ssa.Function{}, Dropped: map[string]string{}, DropProp: map[string]string{}, DropTarget: map[string]string{}, Assumes: map[string][]string{}, Shadow: map[string]types.Type{}}
	var ps []*packages.Package
	for round := 0; ; round++ {
		fset := token.NewFileSet()
		cfg := &packages.Config{
			Mode:       packages.LoadAllSyntax,
			Dir:        o.repo,
			Fset:       fset,
			Overlay:    ov,
			BuildFlags: append([]string{"-tags=verif"}, o.flags...),
			Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
		}
		ps, err = packages.Load(cfg, o.patterns...)
		if err != nil {
			return nil, err
		}
		var bad []packages.Error
		for _, p := range ps {
			if strings.HasPrefix(p.PkgPath, modPath) {
				bad = append(bad, p.Errors...)
			}
		}
		packages.Visit(ps, nil, func(p *packages.Package) {
			if len(p.Errors) > 0 && !strings.HasPrefix(p.PkgPath, modPath) {
				bad = append(bad, p.Errors...)
			}
		})
		if len(bad) == 0 {
			break
		}
		if round > 12 {
			return nil, fmt.Errorf("contracts do not type-check: %v", bad[0])
		}
		changed := false
		for _, b := range bad {
			parts := strings.SplitN(b.Pos, ":", 3)
			src, ok := ov[parts[0]]
			if !ok || len(parts) < 2 {
				return nil, fmt.Errorf("%s: %s", b.Pos, b.Msg)
			}
			line, _ := strconv.Atoi(parts[1])
			nsrc, name, prop, target := dropFunc(src, line)
			if name == "" {
				return nil, fmt.Errorf("%s: %s", b.Pos, b.Msg)
			}
			if string(nsrc) != string(src) {
				changed = true
				ov[parts[0]] = nsrc
				e.Dropped[name] = b.Msg
				e.DropProp[name] = prop
				e.DropTarget[name] = target
			}
		}
		if !changed {
			return nil, fmt.Errorf("contracts do not type-check: %v", bad[0])
		}
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	for _, p := range ps {
		sp := prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for _, f := range p.Syntax {
			fn := p.Fset.Position(f.Pos()).Filename
			if !strings.Contains(filepath.Base(fn), "zz_contract_") {
				continue
			}
			for _, cg := range f.Comments {
				for _, l := range cg.List {
					if t, ok := annot(l.Text); ok && strings.HasPrefix(strings.TrimSpace(t), "assume ") {
						e.Assumes[p.PkgPath] = append(e.Assumes[p.PkgPath], strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(t), "assume ")))
					}
				}
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				if err := e.annot(sp, fd); err != nil {
					return nil, fmt.Errorf("%s: %w", fd.Name.Name, err)
				}
			}
		}
	}
	sort.Slice(e.Harness, func(i, j int) bool { return e.Harness[i].Pkg+e.Harness[i].Name < e.Harness[j].Pkg+e.Harness[j].Name })
	return e, nil
}

// annot returns the text of an annotation (gofmt puts a space before the @).
func annot(s string) (string, bool) {
	if t, ok := strings.CutPrefix(s, "//@"); ok {
		return t, true
	}
	return strings.CutPrefix(s, "// @")
}

// dropFunc blanks the function at a line of a contract file.
func dropFunc(src []byte, line int) ([]byte, string, string, string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return src, "", "", ""
	}
	for _, d := range f.Decls {
		a, b := fset.Position(d.Pos()).Line, fset.Position(d.End()).Line
		fd, ok := d.(*ast.FuncDecl)
		if !ok || line < a || line > b {
			continue
		}
		prop, target := "", ""
		if fd.Doc != nil {
			for _, l := range fd.Doc.List {
				t, isAnn := annot(l.Text)
				w := strings.Fields(t)
				if isAnn && len(w) >= 2 && (w[0] == "contract" || w[0] == "lemma") {
					prop = w[1]
					if w[0] == "contract" && len(w) > 2 {
						target = w[2]
					}
				}
			}
		}
		out := append([]byte{}, src...)
		s := fset.Position(d.Pos()).Offset
		if fd.Doc != nil {
			s = fset.Position(fd.Doc.Pos()).Offset
		}
		for i := s; i < fset.Position(d.End()).Offset; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
		return out, fd.Name.Name, prop, target
	}
	// unused import after dropping: blank the import line
	ls := strings.Split(string(src), "\n")
	if line-1 < len(ls) && strings.Contains(ls[line-1], "\"") {
		l := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(ls[line-1]), "import"))
		if !strings.HasPrefix(l, "_") {
			f := strings.Fields(l)
			pre := ""
			if strings.HasPrefix(strings.TrimSpace(ls[line-1]), "import") {
				pre = "import "
			}
			ls[line-1] = pre + "_ " + f[len(f)-1]
			return []byte(strings.Join(ls, "\n")), fmt.Sprintf("import %s", f[len(f)-1]), "", ""
		}
	}
	return src, "", "", ""
}

// resolve finds a function by its name relative to a package or by its full name.
func (e *Engine) resolve(p *ssa.Package, name string) *ssa.Function {
	for _, m := range p.Members {
		if f, ok := m.(*ssa.Function); ok && f.Name() == name {
			return f
		}
	}
	full := name
	if strings.HasPrefix(name, "(*") {
		if !strings.Contains(name, "/") && strings.Count(name, ".") == 1 {
			full = "(*" + p.Pkg.Path() + "." + name[2:]
		}
	} else if strings.HasPrefix(name, "(") {
		if !strings.Contains(name, "/") && strings.Count(name, ".") == 1 {
			full = "(" + p.Pkg.Path() + "." + name[1:]
		}
	}
	if f := e.fnByName(full); f != nil {
		return f
	}
	if i := strings.IndexByte(name, '$'); i > 0 { // closures
		if f := e.fnByName(p.Pkg.Path() + "." + name); f != nil {
			return f
		}
	}
	return e.fnByName(name)
}

func (e *Engine) annot(p *ssa.Package, fd *ast.FuncDecl) error {
	fn := p.Func(fd.Name.Name)
	if fn == nil {
		return nil // generic or blank
	}
	var h *Harness
	var hs []*Harness
	var mod *modEntry
	defer func() { // one contract of several properties
		for _, h := range hs {
			for _, p := range strings.Split(h.Prop, ",") {
				n := *h
				n.Prop = p
				e.Harness = append(e.Harness, &n)
			}
		}
	}()
	for _, l := range fd.Doc.List {
		t, ok := annot(l.Text)
		if !ok {
			continue
		}
		w := strings.Fields(t)
		if len(w) == 0 {
			continue
		}
		switch w[0] {
		case "contract", "lemma":
			h = &Harness{Prop: w[1], Kind: w[0], Name: fd.Name.Name, Fn: fn, Abstract: map[string]bool{}, Timeout: 30, Pkg: p.Pkg.Path()}
			if w[0] == "contract" {
				tf := e.resolve(p, w[2])
				if tf == nil {
					e.Dropped[fd.Name.Name] = "no function " + w[2]
					e.DropProp[fd.Name.Name] = w[1]
					e.DropTarget[fd.Name.Name] = w[2]
					continue
				}
				h.Target = tf.String()
				h.Rel = w[2]
			}
			hs = append(hs, h)
		case "abstract":
			if h != nil {
				for _, n := range w[1:] {
					name := n
					if f := e.resolve(p, n); f != nil {
						name = fnKey(f)
					}
					h.Abstract[name] = true
				}
			}
		case "timeout":
			if h != nil {
				h.Timeout, _ = strconv.Atoi(w[1])
			}
		case "merge":
			if h != nil {
				h.Merge = true
			}
		case "narrow":
			if h != nil {
				h.Narrow = true
			}
		case "enclosing":
			if h != nil {
				h.Enclosing = true
			}
		case "tier":
			if h != nil {
				h.Tier = w[1]
			}
		case "model":
			mod = &modEntry{fn: fn}
			k := strings.Join(w[1:], " ")
			e.models[k] = append(e.models[k], mod)
		case "modular":
			tf := e.resolve(p, w[1])
			if tf == nil {
				e.Dropped[fd.Name.Name] = "no function " + w[1]
				continue
			}
			mod = &modEntry{fn: fn}
			e.modular[tf.String()] = append(e.modular[tf.String()], mod)
		case "for":
			if mod != nil {
				mod.props = map[string]bool{}
				for _, n := range w[1:] {
					mod.props[n] = true
				}
			}
		case "opaque":
			e.opaque[fn.String()] = true
		case "shadow": // a type whose values the verifier represents by a ghost type
			tn, ok := p.Pkg.Scope().Lookup(w[2]).(*types.TypeName)
			if !ok {
				return fmt.Errorf("no type %s", w[2])
			}
			e.Shadow[w[1]] = tn.Type()
			i := strings.LastIndexByte(w[1], '.')
			if sp := e.pkgs[w[1][:i]]; sp != nil {
				if n, ok := sp.Pkg.Scope().Lookup(w[1][i+1:]).(*types.TypeName); ok {
					n.Type().(*types.Named).SetUnderlying(tn.Type().Underlying())
				}
			}
		case "inv":
			tf := e.resolve(p, w[1])
			if tf == nil {
				e.Dropped[fd.Name.Name] = "no function " + w[1]
				continue
			}
			k := tf.String() + "#" + w[2]
			e.invs[k] = append(e.invs[k], fn)
		}
	}
	return nil
}
