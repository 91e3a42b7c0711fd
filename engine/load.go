package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "github.com/ipfs/go-ipld-git"

// loadEngine type-checks and builds the SSA form of the harness module and of
// everything it depends on, /repo's current working tree included.
func loadEngine(dir string, overlay map[string][]byte, opts Options) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: os.Environ(), Overlay: overlay}
	ps, err := packages.Load(cfg, "./h")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, globs: map[*ssa.Global]*Glob{}, pkgs: map[*ssa.Package]*PkgInfo{},
		sizes: types.SizesFor("gc", "amd64"), opts: opts}
	e.intr = intrinsics(e)
	packages.Visit(ps, nil, func(p *packages.Package) {
		if p.PkgPath == repoPath {
			e.addConsts(p)
		}
	})
	seen := map[*types.Package]bool{}
	// dependency order, for the eager initialisation of non-std packages
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if p.Types == nil || seen[p.Types] {
			return
		}
		seen[p.Types] = true
		var imps []string
		for k := range p.Imports {
			imps = append(imps, k)
		}
		sort.Strings(imps)
		for _, k := range imps {
			visit(p.Imports[k])
		}
		if sp := prog.Package(p.Types); sp != nil {
			e.addPkg(sp)
		}
	}
	for _, p := range ps {
		visit(p)
	}
	for _, sp := range prog.AllPackages() {
		if e.pkgs[sp] == nil {
			e.addPkg(sp)
		}
	}
	for _, p := range e.pkgList {
		if p.path == "runtime" {
			if m, ok := p.pkg.Members["errorString"].(*ssa.Type); ok {
				e.rtErrType = m.Type()
			}
		}
	}
	return e, nil
}

func (e *Engine) addPkg(sp *ssa.Package) {
	path := sp.Pkg.Path()
	first, _, _ := strings.Cut(path, "/")
	pi := &PkgInfo{idx: len(e.pkgList), pkg: sp, path: path, std: !strings.Contains(first, ".") && first != "verif"}
	e.pkgs[sp] = pi
	e.pkgList = append(e.pkgList, pi)
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if g, ok := sp.Members[n].(*ssa.Global); ok {
			e.globs[g] = &Glob{idx: e.nglob, pkg: pi, name: path + "." + n, zero: zeroFn(deref(g.Type()))}
			e.nglob++
			pi.globs = append(pi.globs, e.globs[g])
		}
	}
	if f := sp.Func("init"); f != nil {
		pi.initF = e.fn(f)
	}
}

func (e *Engine) pkg(path string) *PkgInfo {
	for _, p := range e.pkgList {
		if p.path == path {
			return p
		}
	}
	return nil
}

func (e *Engine) stdFn(path, name string) *Fn {
	p := e.pkg(path)
	if p == nil {
		return nil
	}
	if f := p.pkg.Func(name); f != nil {
		return e.fn(f)
	}
	return nil
}

func (e *Engine) typ(path, name string) types.Type {
	p := e.pkg(path)
	if p == nil {
		return nil
	}
	if m, ok := p.pkg.Members[name].(*ssa.Type); ok {
		return m.Type()
	}
	return nil
}

// initAll runs the initialisers of the non-standard packages in dependency
// order; standard ones are initialised on first use of one of their globals.
func (w *W) initAll() {
	for _, p := range w.eng.pkgList {
		if !p.std && p.path != "verif/harness/nd" {
			w.initPkg(p)
		}
	}
}

// addConsts collects the constants of the code under check: the texts it may
// compare its input with and the sizes at which it may change its ways, for
// the harnesses to build inputs around (nd.Lit, nd.Num).
func (e *Engine) addConsts(p *packages.Package) {
	lits, nums := map[string]bool{}, map[int]bool{}
	for _, f := range p.Syntax {
		gen := ast.IsGenerated(f)
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			x, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			tv := p.TypesInfo.Types[x]
			if tv.Value == nil {
				return true
			}
			switch tv.Value.Kind() {
			case constant.String:
				s := constant.StringVal(tv.Value)
				// not those that name a type or tell of a misuse in generated code
				if len(s) >= 3 && len(s) <= 80 && !(gen && (strings.HasPrefix(s, "ipldgit.") || strings.ContainsAny(s, " :%"))) {
					lits[s] = true
				}
			case constant.Int:
				if v, ok := constant.Int64Val(tv.Value); ok && v >= 3 && v <= 5_000_000 {
					nums[int(v)] = true
				}
			}
			return true
		})
	}
	for s := range lits {
		e.lits = append(e.lits, s)
	}
	for n := range nums {
		e.nums = append(e.nums, n)
	}
	sort.Strings(e.lits)
	sort.Ints(e.nums)
}
