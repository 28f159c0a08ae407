package main

import (
	"encoding/json"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"strconv"
)

// A local variable that was only given another name keeps the name the contract knows it by: the
// locals of every function as they were when the contracts were written are kept in
// specs/locals.json, and those of the current source are aligned with them.  This decides only which
// variable an invariant or hint talks about; the verifier still has to prove what it says.

type local struct {
	Name string `json:"n"`
	Type string `json:"t"`
	obj  types.Object
}

func localsOf(fi *fnInfo) []local {
	var out []local
	ast.Inspect(fi.decl, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || id.Name == "_" {
			return true
		}
		if v, ok := fi.pkg.info.Defs[id].(*types.Var); ok && !v.IsField() {
			out = append(out, local{id.Name, types.TypeString(v.Type(), func(*types.Package) string { return "" }), v})
		}
		return true
	})
	return out
}

func loadLocals(file string) map[string][]local {
	m := map[string][]local{}
	if b, err := os.ReadFile(file); err == nil {
		json.Unmarshal(b, &m)
	}
	return m
}

// aliases maps the renamed locals of a function to the names they had.
func aliases(base, cur []local) map[types.Object]string {
	if len(base) == 0 {
		return nil
	}
	now := map[string]bool{}
	for _, l := range cur {
		now[l.Name] = true
	}
	n, m := len(base), len(cur)
	eq := func(i, j int) bool { return base[i].Name == cur[j].Name && base[i].Type == cur[j].Type }
	lcs := make([][]int, n+1)
	for i := range lcs {
		lcs[i] = make([]int, m+1)
	}
	for i := n - 1; i >= 0; i-- {
		for j := m - 1; j >= 0; j-- {
			if eq(i, j) {
				lcs[i][j] = lcs[i+1][j+1] + 1
			} else if lcs[i+1][j] >= lcs[i][j+1] {
				lcs[i][j] = lcs[i+1][j]
			} else {
				lcs[i][j] = lcs[i][j+1]
			}
		}
	}
	out := map[types.Object]string{}
	gap := func(b, c []local) {
		same := len(b) == len(c)
		for i := range b {
			same = same && b[i].Type == c[i].Type
		}
		for i := range b {
			if now[b[i].Name] {
				continue
			}
			if same {
				out[c[i].obj] = b[i].Name
				continue
			}
			k, nb := -1, 0
			for j := range b {
				if b[j].Type == b[i].Type && !now[b[j].Name] {
					nb++
				}
			}
			for j := range c {
				if c[j].Type == b[i].Type {
					if k >= 0 {
						k = -2
						break
					}
					k = j
				}
			}
			if k >= 0 && nb == 1 {
				out[c[k].obj] = b[i].Name
			}
		}
	}
	i, j, bi, cj := 0, 0, 0, 0
	for i < n && j < m {
		if eq(i, j) {
			gap(base[bi:i], cur[cj:j])
			i, j = i+1, j+1
			bi, cj = i, j
		} else if lcs[i+1][j] >= lcs[i][j+1] {
			i++
		} else {
			j++
		}
	}
	gap(base[bi:], cur[cj:])
	return out
}

// stmtText is the text of a statement with the locals under their old names.
func (t *Fn) stmtText(s ast.Node) string {
	if len(t.frames) == 1 && len(t.alias) > 0 {
		old := map[*ast.Ident]string{}
		info := t.frames[0].info
		ast.Inspect(s, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				o := info.Defs[id]
				if o == nil {
					o = info.Uses[id]
				}
				if a, ok := t.alias[o]; ok && o != nil {
					old[id] = id.Name
					id.Name = a
				}
			}
			return true
		})
		defer func() {
			for id, n := range old {
				id.Name = n
			}
		}()
	}
	return src(t.u.ld.fset, s)
}

// loopVar is what contracts call the counter of a counting loop and the slice it ranges over.
type loopVar struct {
	Idx   string `json:"i"`
	Range string `json:"r,omitempty"`
}

func loadLoops(file string) map[string]map[string]loopVar {
	m := map[string]map[string]loopVar{}
	if b, err := os.ReadFile(file); err == nil {
		json.Unmarshal(b, &m)
	}
	return m
}

// counter records the counter of the loop about to be translated, and gives it the name the
// contract knows it by when the loop had another form (range or counter) there.
func (t *Fn) counter(iv *Var, rangeName, rangeRust string) {
	n := strconv.Itoa(t.loopN + 1)
	if t.u.loopsNow[t.key] == nil {
		t.u.loopsNow[t.key] = map[string]loopVar{}
	}
	t.u.loopsNow[t.key][n] = loopVar{iv.name, rangeName}
	b, ok := t.u.loops[t.key][n]
	if !ok {
		return
	}
	if b.Idx != iv.name && t.lookup(b.Idx) == nil {
		t.declare(nil, b.Idx, "int").rust = iv.rust
	}
	if b.Range != "" && b.Range != rangeName && rangeRust != "" {
		t.declare(nil, b.Range, "Slice").rust = rangeRust
	}
}

// counting recognises `for i := lo; i < hi; i++` whose body leaves i alone.
func (t *Fn) counting(s *ast.ForStmt) *ast.Ident {
	as, ok := s.Init.(*ast.AssignStmt)
	if !ok || as.Tok != token.DEFINE || len(as.Lhs) != 1 {
		return nil
	}
	id, ok := as.Lhs[0].(*ast.Ident)
	if !ok || t.typ(id) != types.Typ[types.Int] && t.typ(id) != types.Typ[types.Uint64] {
		return nil
	}
	info := t.fr().info
	o := info.Defs[id]
	is := func(e ast.Expr) bool {
		x, ok := ast.Unparen(e).(*ast.Ident)
		return ok && o != nil && info.Uses[x] == o
	}
	inc, ok := s.Post.(*ast.IncDecStmt)
	if !ok || inc.Tok != token.INC || !is(inc.X) {
		return nil
	}
	c, ok := s.Cond.(*ast.BinaryExpr)
	if !ok || c.Op != token.LSS || !is(c.X) {
		return nil
	}
	if t.assigned(s.Body, o) {
		return nil
	}
	return id
}

// assigned tells whether a statement may assign to a variable.
func (t *Fn) assigned(s ast.Node, o types.Object) bool {
	info := t.fr().info
	found := false
	is := func(e ast.Expr) {
		if x, ok := ast.Unparen(e).(*ast.Ident); ok && info.Uses[x] == o {
			found = true
		}
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				is(l)
			}
		case *ast.IncDecStmt:
			is(n.X)
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				is(n.X)
			}
		case *ast.RangeStmt:
			if n.Tok == token.ASSIGN {
				is(n.Key)
				if n.Value != nil {
					is(n.Value)
				}
			}
		case *ast.FuncLit:
			ast.Inspect(n, func(m ast.Node) bool {
				if x, ok := m.(*ast.Ident); ok && info.Uses[x] == o {
					found = true
				}
				return true
			})
		}
		return true
	})
	return found
}

// fixed tells whether an expression is a constant, a local variable the loop leaves alone, or the
// length of one.
func (t *Fn) fixed(e ast.Expr, body ast.Node) bool {
	e = ast.Unparen(e)
	info := t.fr().info
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		return true
	}
	if c, ok := e.(*ast.CallExpr); ok && len(c.Args) == 1 {
		if f, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
			if b, ok := info.Uses[f].(*types.Builtin); ok && b.Name() == "len" {
				if _, ok := t.typ(c.Args[0]).Underlying().(*types.Slice); ok {
					switch x := ast.Unparen(c.Args[0]).(type) {
					case *ast.Ident:
						return t.fixed(x, body)
					case *ast.SelectorExpr:
						id, ok := ast.Unparen(x.X).(*ast.Ident)
						return ok && t.fixed(id, body) && t.fieldKept(x.Sel.Name, body)
					}
				}
			}
		}
		return false
	}
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	v, ok := info.Uses[id].(*types.Var)
	if !ok || v.IsField() || v.Parent() == nil || v.Parent() == v.Pkg().Scope() {
		return false
	}
	return !t.assigned(body, v)
}

// fieldKept tells whether a statement calls nothing and assigns to no field of that name.
func (t *Fn) fieldKept(name string, s ast.Node) bool {
	kept := true
	is := func(e ast.Expr) {
		if x, ok := ast.Unparen(e).(*ast.SelectorExpr); ok && x.Sel.Name == name {
			kept = false
		}
		if _, ok := ast.Unparen(e).(*ast.StarExpr); ok {
			kept = false
		}
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				is(l)
			}
		case *ast.IncDecStmt:
			is(n.X)
		case *ast.UnaryExpr:
			if n.Op == token.AND || n.Op == token.ARROW {
				kept = false
			}
		case *ast.CallExpr:
			if tv := t.fr().info.Types[n.Fun]; !tv.IsBuiltin() && !tv.IsType() {
				kept = false
			}
		case *ast.DeferStmt, *ast.GoStmt:
			kept = false
		}
		return kept
	})
	return kept
}

// ranged gives the slice a range loop walks over the name of the local of that type that is gone.
func (t *Fn) ranged(ty types.Type, rust string) {
	if len(t.frames) != 1 {
		return
	}
	now := map[string]bool{}
	for _, l := range localsOf(t.u.fns[t.key]) {
		now[l.Name] = true
		if a, ok := t.alias[l.obj]; ok {
			now[a] = true
		}
	}
	name, n := "", 0
	for _, l := range t.u.locals[t.key] {
		if !now[l.Name] && l.Type == types.TypeString(ty, func(*types.Package) string { return "" }) && t.lookup(l.Name) == nil {
			name = l.Name
			n++
		}
	}
	if n == 1 {
		t.declare(nil, name, "Slice").rust = rust
	}
}
