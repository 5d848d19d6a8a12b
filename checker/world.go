package main

import (
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/chenquan/go-pkg"
const vfPath = modPath + "/zzverif/vf"

// World is the loaded program.
type World struct {
	prog    *ssa.Program
	fset    *token.FileSet
	pkgs    map[string]*ssa.Package
	syntax  map[string]*packages.Package
	viol    map[string]*Violation
	obl     map[string]int
	repoDir string
	loadErr []string
	shims   map[string]*ssa.Function
	stats   stats
	pure    map[*ssa.Function]bool
	fns     map[*ssa.Function]bool
}

// allFns are all functions of the program.
func (w *World) allFns() map[*ssa.Function]bool {
	if w.fns == nil {
		w.fns = ssautil.AllFunctions(w.prog)
	}
	return w.fns
}

type stats struct {
	entries, fns, steps, states, ends, spawns int
	fnNames                                   map[string]bool
	entryNames                                []string
}

// overlayFiles maps the harness sources into the repository's module.
func overlayFiles(repo, verif string) (map[string][]byte, []string, error) {
	ov := map[string][]byte{}
	dirs := map[string]bool{}
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		ov[filepath.Join(repo, "zzverif", rel)] = b
		dirs[filepath.Dir(rel)] = true
		return nil
	})
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	return ov, ds, err
}

func loadWorld(repo, verif string, harness []string) (*World, error) {
	ov, _, err := overlayFiles(repo, verif)
	if err != nil {
		return nil, err
	}
	w := &World{repoDir: repo, pkgs: map[string]*ssa.Package{}, syntax: map[string]*packages.Package{}, viol: map[string]*Violation{}, obl: map[string]int{}, shims: map[string]*ssa.Function{}}
	w.stats.fnNames = map[string]bool{}
	w.fset = token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Fset: w.fset, Overlay: ov,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")}
	pats := []string{"./..."}
	for _, h := range append([]string{"vf"}, harness...) {
		pats = append(pats, modPath+"/zzverif/"+h)
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	seen := map[string]bool{}
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			m := fmt.Sprintf("%s: %s", p.PkgPath, e)
			if !seen[m] {
				seen[m] = true
				w.loadErr = append(w.loadErr, m)
			}
		}
	})
	if len(w.loadErr) > 0 {
		return w, fmt.Errorf("the program does not type-check: %s", strings.Join(w.loadErr, "; "))
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	w.prog = prog
	prog.Build()
	for i, p := range sp {
		if p != nil {
			w.pkgs[p.Pkg.Path()] = p
			w.syntax[p.Pkg.Path()] = ps[i]
		}
	}
	vf := w.pkgs[vfPath]
	if vf == nil {
		return nil, fmt.Errorf("harness package missing")
	}
	for name, target := range shimTable {
		f := vf.Func(target)
		if f == nil {
			return nil, fmt.Errorf("shim %s missing", target)
		}
		w.shims[name] = f
	}
	return w, nil
}

func (w *World) posStr(p token.Pos) string {
	if p == token.NoPos {
		return "-"
	}
	q := w.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(w.repoDir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func pkgOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func inRepo(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

// isRepo: the function is analysed by its body.
func (w *World) isRepo(fn *ssa.Function) bool {
	p := pkgOf(fn)
	return inRepo(p) || p == "" || fn.Pkg == nil
}

// isLib: the function belongs to the library proper, not to the harness.
func (w *World) isLib(fn *ssa.Function) bool {
	p := pkgOf(fn)
	return inRepo(p) && !strings.HasPrefix(p, modPath+"/zzverif")
}

func (w *World) isRepoPkg(p *ssa.Package) bool { return p != nil && inRepo(p.Pkg.Path()) }
