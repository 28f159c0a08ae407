package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const modPath = "github.com/liyue201/gostl"

// Pkg is one type-checked package of the repository.
type Pkg struct {
	path  string
	rel   string
	files []*ast.File
	tpkg  *types.Package
	info  *types.Info
	// package variables that are assigned somewhere after initialisation
	mutated map[types.Object]bool
	inits   map[types.Object]ast.Expr
	decls   map[types.Object]*ast.FuncDecl
}

type Loader struct {
	root string
	fset *token.FileSet
	pkgs map[string]*Pkg
	std  types.Importer
}

func NewLoader(root string) *Loader {
	fset := token.NewFileSet()
	return &Loader{root: root, fset: fset, pkgs: map[string]*Pkg{}, std: importer.ForCompiler(fset, "source", nil)}
}

func (l *Loader) Import(path string) (*types.Package, error) {
	if strings.HasPrefix(path, modPath+"/") {
		p, err := l.Load(strings.TrimPrefix(path, modPath+"/"))
		if err != nil {
			return nil, err
		}
		return p.tpkg, nil
	}
	return l.std.Import(path)
}

func (l *Loader) Load(rel string) (*Pkg, error) {
	if p, ok := l.pkgs[rel]; ok {
		if p == nil {
			return nil, fmt.Errorf("import cycle through %s", rel)
		}
		return p, nil
	}
	l.pkgs[rel] = nil
	dir := filepath.Join(l.root, rel)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var names []string
	for _, e := range ents {
		n := e.Name()
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	p := &Pkg{path: modPath + "/" + rel, rel: rel, mutated: map[types.Object]bool{}, inits: map[types.Object]ast.Expr{}, decls: map[types.Object]*ast.FuncDecl{}}
	for _, n := range names {
		f, err := parser.ParseFile(l.fset, filepath.Join(dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		if buildExcluded(f) {
			continue
		}
		p.files = append(p.files, f)
	}
	p.info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances:  map[*ast.Ident]types.Instance{},
		Implicits:  map[ast.Node]types.Object{},
		Scopes:     map[ast.Node]*types.Scope{},
	}
	conf := types.Config{Importer: l}
	tp, err := conf.Check(p.path, l.fset, p.files, p.info)
	if err != nil {
		return nil, err
	}
	p.tpkg = tp
	for _, f := range p.files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if o := p.info.Defs[d.Name]; o != nil {
					p.decls[o] = d
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if vs, ok := s.(*ast.ValueSpec); ok && d.Tok == token.VAR {
						for i, nm := range vs.Names {
							if i < len(vs.Values) {
								p.inits[p.info.Defs[nm]] = vs.Values[i]
							}
						}
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			mark := func(e ast.Expr) {
				for {
					switch x := e.(type) {
					case *ast.ParenExpr:
						e = x.X
						continue
					case *ast.SelectorExpr:
						e = x.X
						continue
					case *ast.IndexExpr:
						e = x.X
						continue
					}
					break
				}
				if id, ok := e.(*ast.Ident); ok {
					if o := p.info.Uses[id]; o != nil {
						p.mutated[o] = true
					}
				}
			}
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, e := range x.Lhs {
					mark(e)
				}
			case *ast.IncDecStmt:
				mark(x.X)
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					mark(x.X)
				}
			}
			return true
		})
	}
	l.pkgs[rel] = p
	return p, nil
}

func buildExcluded(f *ast.File) bool {
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build ") {
				t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//go:build "))
				if t == "ignore" || t == "verif" {
					return true
				}
			}
		}
	}
	return false
}
