package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// target is one GOOS/GOARCH pair.
type target struct{ os, arch string }

// loadTarget type-checks the library for a platform, entirely from source.
func loadTarget(repo string, t target) ([]*packages.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo, Fset: token.NewFileSet(),
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0", "GOOS="+t.os, "GOARCH="+t.arch),
		ParseFile: func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, name, src, parser.AllErrors|parser.SkipObjectResolution)
			if f != nil && !strings.HasPrefix(name, repo+string(filepath.Separator)) {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	return packages.Load(cfg, "./...")
}

// c34Target judges one platform.
func c34Target(r *Run, t target, mu *sync.Mutex) {
	name := t.os + "/" + t.arch
	ps, err := loadTarget(r.repo, t)
	fail := func(rule, con, pos, format string, args ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		r.fail(rule, con, pos, format, args...)
	}
	done := func(rule string) {
		mu.Lock()
		defer mu.Unlock()
		r.ok(rule)
	}
	if err != nil {
		fail("builds", name, "", "cannot load the library for %s: %v", name, err)
		return
	}
	rel := func(p string) string { return strings.TrimPrefix(p, r.repo+"/") }
	clean := true
	for _, p := range ps {
		if !inRepo(p.PkgPath) {
			continue
		}
		if len(p.CompiledGoFiles) == 0 {
			fail("builds", shortPkg(p.PkgPath), name, "the package has no source file for %s", name)
			clean = false
		}
		for _, e := range p.Errors {
			fail("builds", shortPkg(p.PkgPath), rel(e.Pos), "does not compile for %s: %s", name, e.Msg)
			clean = false
		}
		var asm bool
		for _, f := range p.OtherFiles {
			asm = asm || strings.HasSuffix(f, ".s")
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body == nil && !asm {
					fail("builds", shortPkg(p.PkgPath)+"."+fd.Name.Name, "", "function without a body for %s", name)
					clean = false
				}
			}
		}
		if clean {
			done("package type-checks for a platform")
		}
	}
	if !clean {
		return
	}
	if len(ps) > 0 && ps[0].TypesSizes != nil && ps[0].TypesSizes.Sizeof(types.Typ[types.Uintptr]) == 4 {
		c34Align(r, ps, name, fail, done)
	}
}

func shortPkg(p string) string { return strings.TrimPrefix(p, modPath+"/") }

// c34Align checks the operands of 64-bit atomic functions on a 32-bit platform.
func c34Align(r *Run, ps []*packages.Package, name string, fail func(rule, con, pos, format string, args ...interface{}), done func(string)) {
	var mine []*packages.Package
	for _, p := range ps {
		if inRepo(p.PkgPath) {
			mine = append(mine, p)
		}
	}
	sizes := mine[0].TypesSizes
	packages.Visit(mine, nil, func(p *packages.Package) {
		p.IllTyped = false // the bodies of dependencies were dropped, which leaves imports unused there
	})
	prog, pkgs := ssautil.Packages(mine, 0)
	for _, p := range pkgs {
		p.Build()
	}
	fns := declaredFuncs(prog, mine, pkgs)
	// types embedded by value somewhere: the worst remainder of their offset
	var structs []*types.Struct
	seen := map[*types.Struct]bool{}
	for _, p := range mine {
		for _, tv := range p.TypesInfo.Types {
			collectStructs(tv.Type, &structs, seen, 0)
		}
		for _, o := range p.TypesInfo.Defs {
			if o != nil {
				collectStructs(o.Type(), &structs, seen, 0)
			}
		}
	}
	rem := func(T types.Type) bool { // may a value of T start off an 8-byte boundary?
		for _, st := range structs {
			var fs []*types.Var
			for i := 0; i < st.NumFields(); i++ {
				fs = append(fs, st.Field(i))
			}
			offs := sizes.Offsetsof(fs)
			for i, f := range fs {
				U := f.Type()
				n := int64(1)
				if a, ok := U.Underlying().(*types.Array); ok {
					U, n = a.Elem(), a.Len()
				}
				if types.Identical(U, T) && (offs[i]%8 != 0 || n > 1 && sizes.Sizeof(U)%8 != 0) {
					return true
				}
			}
		}
		return false
	}
	var aligned func(v ssa.Value, depth int) bool
	aligned = func(v ssa.Value, depth int) bool {
		if depth > 10 {
			return true
		}
		off := int64(0)
		for {
			switch a := v.(type) {
			case *ssa.FieldAddr:
				st := a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				var fs []*types.Var
				for i := 0; i < st.NumFields(); i++ {
					fs = append(fs, st.Field(i))
				}
				off += sizes.Offsetsof(fs)[a.Field]
				v = a.X
				continue
			case *ssa.IndexAddr:
				var et types.Type
				switch u := a.X.Type().Underlying().(type) {
				case *types.Slice:
					et = u.Elem()
				case *types.Pointer:
					et = u.Elem().Underlying().(*types.Array).Elem()
				}
				if sizes.Sizeof(et)%8 != 0 {
					if c, ok := a.Index.(*ssa.Const); !ok || c.Int64() != 0 {
						return false
					}
				}
				if _, ok := a.X.Type().Underlying().(*types.Slice); ok {
					return off%8 == 0
				}
				v = a.X
				continue
			case *ssa.Phi:
				for _, e := range a.Edges {
					if !aligned(e, depth+1) {
						return false
					}
				}
				return off%8 == 0
			}
			break
		}
		if off%8 != 0 {
			return false
		}
		switch a := v.(type) {
		case *ssa.Alloc, *ssa.Global:
			return true
		case *ssa.FreeVar, *ssa.Parameter, *ssa.UnOp, *ssa.Call, *ssa.Extract, *ssa.TypeAssert, *ssa.ChangeType:
			// a pointer from elsewhere: aligned when every value of its type is
			if p, ok := a.(ssa.Value).Type().Underlying().(*types.Pointer); ok {
				T := p.Elem()
				if b, basic := T.Underlying().(*types.Basic); basic && b.Info()&types.IsInteger != 0 {
					return paramAligned(a.(ssa.Value), fns, func(v ssa.Value) bool { return aligned(v, depth+1) })
				}
				return !rem(T)
			}
		}
		return true
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := call.Common().StaticCallee()
				if f == nil || pkgOf(f) != "sync/atomic" || f.Signature.Recv() != nil || !strings.HasSuffix(f.Name(), "64") {
					continue
				}
				if aligned(call.Common().Args[0], 0) {
					done("64-bit atomic operand is aligned on a 32-bit platform")
				} else {
					q := prog.Fset.Position(in.Pos())
					fail("alignment", shortFn(fn), fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, r.repo+"/"), q.Line),
						"atomic.%s on an operand that need not be 64-bit aligned on %s: it crashes there", f.Name(), name)
				}
			}
		}
	}
}

// declaredFuncs lists every function of the packages, with methods, closures and initialisers.
func declaredFuncs(prog *ssa.Program, ps []*packages.Package, pkgs []*ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		out = append(out, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for i, p := range ps {
		for _, o := range p.TypesInfo.Defs {
			if f, ok := o.(*types.Func); ok {
				if fn := prog.FuncValue(f); fn != nil && fn.Blocks != nil {
					add(fn)
				}
			}
		}
		if fn := pkgs[i].Func("init"); fn != nil {
			add(fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// paramAligned follows a *int64 parameter to the arguments of all callers.
func paramAligned(v ssa.Value, fns []*ssa.Function, ok func(ssa.Value) bool) bool {
	p, isp := v.(*ssa.Parameter)
	if !isp {
		return true
	}
	idx := -1
	for i, q := range p.Parent().Params {
		if q == p {
			idx = i
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, isc := in.(ssa.CallInstruction); isc && call.Common().StaticCallee() == p.Parent() && idx < len(call.Common().Args) {
					if !ok(call.Common().Args[idx]) {
						return false
					}
				}
			}
		}
	}
	return true
}

func collectStructs(T types.Type, out *[]*types.Struct, seen map[*types.Struct]bool, depth int) {
	if T == nil || depth > 6 {
		return
	}
	switch u := T.Underlying().(type) {
	case *types.Struct:
		if seen[u] {
			return
		}
		seen[u] = true
		*out = append(*out, u)
		for i := 0; i < u.NumFields(); i++ {
			collectStructs(u.Field(i).Type(), out, seen, depth+1)
		}
	case *types.Pointer:
		collectStructs(u.Elem(), out, seen, depth+1)
	case *types.Slice:
		collectStructs(u.Elem(), out, seen, depth+1)
	case *types.Array:
		collectStructs(u.Elem(), out, seen, depth+1)
	}
}

func init() {
	checks["C34"] = &checkDef{id: "C34", noLoad: true, run: func(r *Run) {
		r.expl = "The library is type-checked from source, without building or running anything, for every GOOS/GOARCH pair the toolchain knows (sizes and build constraints of that platform, its standard library, the pinned dependencies). On 32-bit platforms the operand of every 64-bit sync/atomic function is traced through the SSA form to the offset it has in its allocation."
		r.assume = []string{"a program that type-checks with go/types for a platform compiles for it (the back end of the compiler rejects nothing else in code without assembly or cgo)"}
		out, err := exec.Command("go", "tool", "dist", "list").Output()
		if err != nil {
			r.fail("undecided", "targets", "", "cannot list the platforms: %v", err)
			return
		}
		var ts []target
		for _, l := range strings.Fields(string(out)) {
			p := strings.SplitN(l, "/", 2)
			ts = append(ts, target{p[0], p[1]})
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].os+"/"+ts[i].arch < ts[j].os+"/"+ts[j].arch })
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for _, t := range ts {
			t := t
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				defer func() {
					if e := recover(); e != nil {
						if os.Getenv("VPANIC") != "" {
							panic(e)
						}
						mu.Lock()
						defer mu.Unlock()
						r.fail("undecided", t.os+"/"+t.arch, "", "the analysis does not cover this code: %v", e)
					}
				}()
				c34Target(r, t, &mu)
			}()
		}
		wg.Wait()
		for _, t := range ts {
			r.samples = append(r.samples, t.os+"/"+t.arch)
		}
		r.need("platforms", len(ts), 30)
		if len(r.w.viol) == 0 {
			r.need("packages times platforms", r.w.obl["package type-checks for a platform"], 14*30)
		}
	}}
}
