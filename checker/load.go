package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/akhenakh/oureadb"

// Program is the analysed tree: the repository in SSA form and the client
// programs that drive it, which are compiled to SSA and never run.
type Program struct {
	fset    *token.FileSet
	prog    *ssa.Program
	pkgs    []*packages.Package
	repo    map[*ssa.Package]bool
	clients map[string]*ssa.Package // by directory name
	nfuncs  int
}

type pkgImporter map[string]*types.Package

func (m pkgImporter) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := m[path]; p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("package %s is not part of the repository's dependencies", path)
}

func load(repoDir, clientDir string, clients []string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repoDir, Fset: fset,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	cfg.Mode = packages.LoadSyntax | packages.NeedModule
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, ssaps := ssautil.Packages(ps, ssa.BuilderMode(0))
	prog.Build()
	p := &Program{fset: fset, prog: prog, pkgs: ps, repo: map[*ssa.Package]bool{}, clients: map[string]*ssa.Package{}}
	for i, sp := range ssaps {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		p.repo[sp] = true
	}
	imp := pkgImporter{}
	packages.Visit(ps, nil, func(pk *packages.Package) {
		if pk.Types != nil {
			imp[pk.PkgPath] = pk.Types
		}
	})
	for _, c := range clients {
		sp, err := loadClient(p, imp, filepath.Join(clientDir, c), "verifclient/"+c)
		if err != nil {
			return nil, err
		}
		p.clients[c] = sp
	}
	return p, nil
}

func loadClient(p *Program, imp types.Importer, dir, path string) (*ssa.Package, error) {
	names, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil || len(names) == 0 {
		return nil, fmt.Errorf("no client files in %s", dir)
	}
	sort.Strings(names)
	names = append(names, filepath.Join(filepath.Dir(dir), "intrinsics.go"))
	var files []*ast.File
	for _, n := range names {
		src, err := os.ReadFile(n)
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(p.fset, n, src, 0)
		if err != nil {
			return nil, err
		}
		f.Name.Name = "client"
		files = append(files, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	conf := types.Config{Importer: imp, GoVersion: "go1.13", Error: func(error) {}}
	var first error
	conf.Error = func(err error) {
		if first == nil {
			first = err
		}
	}
	tp, _ := conf.Check(path, p.fset, files, info)
	if first != nil {
		return nil, fmt.Errorf("a client does not type-check against the repository's exported API: %v", first)
	}
	sp := p.prog.CreatePackage(tp, files, info, false)
	sp.Build()
	return sp, nil
}
