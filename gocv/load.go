package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"
var verifDir = "/verif"

type Harness struct {
	Name    string
	Prop    string
	Fn      *ssa.Function
	Pkg     string
	Proves  []string
	Bounded string
	Slow    bool
	Dropped string
	Native  bool
	File    string
}

type World struct {
	shapes   map[string]string // loops.txt
	prog     *ssa.Program
	fset     *token.FileSet
	pkgs     []*packages.Package
	harness  []*Harness
	externs  map[string]*ssa.Function
	sent     map[*ssa.Global]uint64
	sentN    uint64
	mu       sync.Mutex
	warnings []string
	labels   map[string]int
	thorough bool
	repoPkgs map[string]bool
	initPkgs []*ssa.Package
	decls    int
	dropped  map[string]string
	loadErr  string
	// contract files as they were bound (destination -> file)
	overlayFiles map[string]string
	tmp          string
}

func (w *World) warn(s string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, x := range w.warnings {
		if x == s {
			return
		}
	}
	w.warnings = append(w.warnings, s)
}
func (w *World) noteLabel(h, l string, ok bool) {
	w.mu.Lock()
	w.labels[h+"/"+l]++
	w.mu.Unlock()
}

func (w *World) sentinel(g *ssa.Global) uint64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	if v, ok := w.sent[g]; ok {
		return v
	}
	w.sentN++
	w.sent[g] = 1000 + w.sentN
	return w.sent[g]
}

func (w *World) externFor(name string) *ssa.Function { return w.externs[name] }

var bodyPkgs = map[string]bool{"io": true, "bytes": true, "encoding/binary": true, "strings": true, "math/bits": true, "math": true, "github.com/phf/go-queue/queue": true, "github.com/satori/go.uuid": true, "bufio": true, "errors": true, "unicode/utf8": true, "sort": true, "internal/byteorder": true}

func (w *World) noBody(pkg string) bool {
	if pkg == modPath || strings.HasPrefix(pkg, modPath+"/") {
		return false
	}
	return !bodyPkgs[pkg]
}

// globalVals: initial values of package-level variables; set by runInits.
func (w *World) globalVals(e *Exec, g *ssa.Global, t types.Type) (Value, bool) {
	if v, ok := e.initVals[g]; ok {
		return v, true
	}
	if g.Pkg != nil && !w.repoPkgs[g.Pkg.Pkg.Path()] {
		if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() == 0 {
			return nil, false
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return nil, false
		}
		return Opaque{g.String()}, true
	}
	return nil, false
}

// overlay collects the contract files.
func contractFiles() (map[string]string, error) {
	m := map[string]string{}
	root := filepath.Join(verifDir, "contracts")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		m[filepath.Join(repoDir, rel)] = p
		return nil
	})
	m[filepath.Join(repoDir, "zzgov", "gov.go")] = filepath.Join(verifDir, "gov", "gov.go")
	return m, err
}

type declInfo struct {
	name     string
	from, to int // byte offsets
	file     string
}

func Load(thorough bool) (*World, error) {
	files, err := contractFiles()
	if err != nil {
		return nil, err
	}
	src := map[string][]byte{}
	allDecl := map[string]string{}
	for dst, p := range files {
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		src[dst] = b
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, dst, b, parser.ParseComments)
		if err != nil {
			return nil, fmt.Errorf("contract file %s: %v", p, err)
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && strings.HasPrefix(fd.Name.Name, "GovProve_") {
				allDecl[fd.Name.Name] = dst
			}
		}
	}
	w := &World{externs: map[string]*ssa.Function{}, sent: map[*ssa.Global]uint64{}, labels: map[string]int{}, thorough: thorough, repoPkgs: map[string]bool{}, dropped: map[string]string{}}
	for round := 0; ; round++ {
		if round > 12 {
			return nil, fmt.Errorf("contract files do not type-check against the current tree")
		}
		w.fset = token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: src, Fset: w.fset}
		pkgs, err := packages.Load(cfg, modPath+"/zzgov", "./address", "./block", "./internalerror", "./lump", "./lumpindex", "./metrics", "./nvm", "./portion", "./storage/...", "./util/...")
		if err != nil {
			return nil, err
		}
		var bad []packages.Error
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			if strings.HasPrefix(p.PkgPath, modPath) {
				bad = append(bad, p.Errors...)
			}
		})
		if len(bad) == 0 {
			w.pkgs = pkgs
			w.overlayFiles = files
			if round > 0 {
				// some declarations were dropped: the native runs need the reduced files
				if d, err := os.MkdirTemp("", "gocv-contracts"); err == nil {
					m := map[string]string{}
					i := 0
					for dst, b := range src {
						i++
						f := filepath.Join(d, fmt.Sprintf("f%d.go", i))
						os.WriteFile(f, b, 0o644)
						m[dst] = f
					}
					w.overlayFiles = m
					w.tmp = d
				}
			}
			break
		}
		removed := 0
		var msgs []string
		for _, b := range bad {
			msgs = append(msgs, b.Error())
			parts := strings.Split(b.Pos, ":")
			if len(parts) < 2 {
				continue
			}
			f := parts[0]
			if _, ok := src[f]; !ok {
				continue
			}
			var line int
			fmt.Sscanf(parts[1], "%d", &line)
			if os.Getenv("GOCV_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "dropping:", b.Error())
			}
			if n := blankDecl(src, f, line); n != "" {
				removed++
				w.dropped[n] = b.Msg
			}
		}
		if removed == 0 {
			return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(msgs, "; "))
		}
	}
	prog, _ := ssautil.AllPackages(w.pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	w.prog = prog
	seen := map[string]bool{}
	packages.Visit(w.pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		w.repoPkgs[p.PkgPath] = true
		sp := prog.Package(p.Types)
		if sp == nil {
			return
		}
		w.initPkgs = append(w.initPkgs, sp)
		for _, f := range p.Syntax {
			fname := w.fset.Position(f.Pos()).Filename
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				fn := sp.Func(fd.Name.Name)
				if fn == nil {
					continue
				}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if strings.HasPrefix(c.Text, "//gov:extern ") {
							w.externs[strings.TrimSpace(strings.TrimPrefix(c.Text, "//gov:extern "))] = fn
						}
					}
				}
				if strings.HasPrefix(fd.Name.Name, "GovProve_") {
					h := &Harness{Name: fd.Name.Name, Fn: fn, Pkg: p.PkgPath, File: fname}
					rest := strings.TrimPrefix(fd.Name.Name, "GovProve_")
					h.Prop = rest
					if i := strings.IndexByte(rest, '_'); i > 0 {
						h.Prop = rest[:i]
					}
					if fd.Doc != nil {
						for _, c := range fd.Doc.List {
							t := c.Text
							if strings.HasPrefix(t, "//gov:proves ") {
								for _, x := range strings.Split(strings.TrimPrefix(t, "//gov:proves "), ";") {
									h.Proves = append(h.Proves, strings.TrimSpace(x))
								}
							}
							if strings.HasPrefix(t, "//gov:bounded ") {
								h.Bounded = strings.TrimPrefix(t, "//gov:bounded ")
							}
							if strings.HasPrefix(t, "//gov:slow") {
								h.Slow = true
							}
							if strings.HasPrefix(t, "//gov:native") {
								h.Native = true
							}
						}
					}
					seen[h.Name] = true
					w.harness = append(w.harness, h)
				}
			}
		}
	})
	for n, f := range allDecl {
		if !seen[n] {
			rest := strings.TrimPrefix(n, "GovProve_")
			prop := rest
			if i := strings.IndexByte(rest, '_'); i > 0 {
				prop = rest[:i]
			}
			w.harness = append(w.harness, &Harness{Name: n, Prop: prop, Dropped: "does not type-check against the current tree: " + w.dropped[n], File: f})
		}
	}
	sort.Slice(w.harness, func(i, j int) bool { return w.harness[i].Name < w.harness[j].Name })
	return w, nil
}

// blankDecl removes the top-level declaration at the given line.
func blankDecl(src map[string][]byte, file string, line int) string {
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, file, src[file], parser.ParseComments)
	if err != nil {
		return ""
	}
	b := append([]byte(nil), src[file]...)
	blank := func(from, to token.Pos) {
		for i := fs.Position(from).Offset; i < fs.Position(to).Offset; i++ {
			if b[i] != '\n' {
				b[i] = ' '
			}
		}
	}
	for _, d := range af.Decls {
		l1, l2 := fs.Position(d.Pos()).Line, fs.Position(d.End()).Line
		if line < l1 || line > l2 {
			continue
		}
		name := "decl"
		switch x := d.(type) {
		case *ast.FuncDecl:
			name = x.Name.Name
			if x.Doc != nil {
				blank(x.Doc.Pos(), x.Doc.End())
			}
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				for _, sp := range x.Specs {
					if fs.Position(sp.Pos()).Line == line {
						is := sp.(*ast.ImportSpec)
						if is.Name != nil && is.Name.Name == "_" {
							return ""
						}
						// keep the package imported, anonymously
						nb := append([]byte(nil), b[:fs.Position(sp.Pos()).Offset]...)
						nb = append(nb, []byte("_ "+is.Path.Value)...)
						nb = append(nb, b[fs.Position(sp.End()).Offset:]...)
						src[file] = nb
						return "import " + is.Path.Value
					}
				}
				return ""
			}
			name = "declaration at line " + fmt.Sprint(line)
		}
		blank(d.Pos(), d.End())
		src[file] = b
		return name
	}
	return ""
}

// runInits interprets the package initialisers of the repository's packages.
func (e *Exec) runInits(s *State) {
	e.initVals = map[*ssa.Global]Value{}
	for _, p := range e.w.initPkgs {
		fn := p.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupportedErr); !ok {
						panic(r)
					}
				}
			}()
			e.runInit(s, fn)
		}()
	}
}

func (e *Exec) runInit(s *State, fn *ssa.Function) {
	f := e.pushCall(s, Func{fn: fn}, nil, nil)
	depth := len(s.fr)
	_ = f
	e.quiet++
	defer func() { e.quiet-- }()
	saved := e.run
	e.run = &explRun{}
	defer func() { e.run = saved }()
	for len(s.fr) >= depth && !s.dead {
		f := e.top(s)
		in := f.blk.Instrs[f.ip]
		if len(s.fr) == depth {
			if c, ok := in.(*ssa.Call); ok {
				if callee := c.Call.StaticCallee(); callee != nil && (strings.HasSuffix(callee.String(), ".init") || strings.HasPrefix(callee.Name(), "init#")) {
					e.set(s, c, Tuple{})
					e.wtop(s).ip++
					continue
				}
			}
		}
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(unsupportedErr); is {
						ok = false
						return
					}
					panic(r)
				}
			}()
			e.step(s)
			return true
		}()
		if !ok {
			// abandon the instruction at the init level
			for len(s.fr) > depth {
				s.fr = s.fr[:len(s.fr)-1]
			}
			f := e.wtop(s)
			in := f.blk.Instrs[f.ip]
			if c, isCall := in.(*ssa.Call); isCall && false {
				_ = c
			}
			if v, isV := in.(ssa.Value); isV {
				e.set(s, v, Opaque{"init " + v.Type().String()})
				f = e.wtop(s)
			}
			if f.ip > 0 {
				if pv, isV := f.blk.Instrs[f.ip-1].(ssa.Value); isV && f.env[f.info.idx[pv]] == nil {
					f.env[f.info.idx[pv]] = Opaque{"init"}
					continue // the call already advanced ip
				}
			}
			f.ip++
		}
	}
}
