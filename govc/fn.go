package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/printer"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type OB struct {
	ID    string   `json:"id"`
	Fn    string   `json:"fn"`
	Label string   `json:"label"`
	Tags  []string `json:"tags,omitempty"`
	Pos   string   `json:"pos,omitempty"`
	Line  int      `json:"line"`
}

type Var struct {
	rust string
	rty  string
	name string
	obj  types.Object
}

type Frame struct {
	pkg    *Pkg
	info   *types.Info
	key    string
	top    bool
	res    []*Var
	resTy  []types.Type
	flag   string // return flag of an inlined frame
	defers []*ast.CallExpr
	loops  []*loopCtx
	direct map[*ast.DeferStmt]bool
}

type loopCtx struct {
	brk, cont string
	label     string
}

// Fn translates one function under contract.
type Fn struct {
	u         *Unit
	spec      *FuncSpec
	key       string
	alias     map[types.Object]string
	buf       []string
	ind       int
	havocs    []string
	n         int
	loopN     int
	calls     map[string]int
	stmts     map[string]int
	params    []string
	obs       []OB
	obn       map[string]int
	mods      map[string]bool
	asg       []map[*Var]bool
	vars      map[types.Object]*Var
	scope     []map[string]*Var
	frames    []*Frame
	resEnv    map[string]string // header result names, at exits
	entry     map[string]string // spec name -> rust name at entry
	entryV    map[string]*Var
	unwinding bool
	dry       int
	curPos    token.Pos
	depth     int
	allocs    bool
	inlined   map[string]bool
	called    map[string]bool
	notes     map[string]bool
	lits      map[*types.Var]*ast.FuncLit
	litFrame  map[*ast.FuncLit]*Frame
	argLits   map[string]*ast.FuncLit
	outs      []outArg
	extCall   bool
}

type unsupported struct{ msg string }

func (t *Fn) fail(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func (t *Fn) emit(f string, a ...interface{}) {
	s := f
	if len(a) > 0 {
		s = fmt.Sprintf(f, a...)
	}
	t.buf = append(t.buf, strings.Repeat("  ", t.ind)+s)
}

func (t *Fn) fr() *Frame { return t.frames[len(t.frames)-1] }

func (t *Fn) fresh(p string) string {
	t.n++
	return fmt.Sprintf("%s_%d", p, t.n)
}

func (t *Fn) havoc(ty string) string {
	v := t.fresh("hv")
	t.havocs = append(t.havocs, v+": "+ty)
	return v
}

func (t *Fn) tmp(e string) string {
	if simpleRe.MatchString(e) {
		return e
	}
	v := t.fresh("t")
	t.emit("let %s = %s;", v, e)
	return v
}

var simpleRe = regexp.MustCompile(`^(t_\d+|\d+(int|u64|u8|u32)|true|false|hv_\d+)$`)

func (t *Fn) pos() string {
	if !t.curPos.IsValid() {
		return ""
	}
	p := t.u.ld.fset.Position(t.curPos)
	return strings.TrimPrefix(p.Filename, t.u.ld.root+"/") + ":" + strconv.Itoa(p.Line)
}

// ob emits a proof obligation.
func (t *Fn) ob(label string, tags []string, e string) {
	t.obn[label]++
	id := t.key + "#" + label
	if t.obn[label] > 1 {
		id += "." + strconv.Itoa(t.obn[label])
	}
	if len(tags) == 0 {
		tags = t.spec.tags
	}
	t.obs = append(t.obs, OB{ID: id, Fn: t.key, Label: label, Tags: tags, Pos: t.pos()})
	t.emit("assert(%s); /*OB %s*/", oneLine(e), id)
}

func oneLine(s string) string {
	return strings.Join(strings.Fields(s), " ")
}

// cut marks a place where the obligations of a function may be divided.
func (t *Fn) cut(kind string) {
	if t.spec.split > 0 {
		t.emit("//@CUT %s", kind)
	}
}

var leftRe = regexp.MustCompile(`^\s*(brk|ret)_\d+ = true;`)

// pieces divides the text of a function: every copy proves the obligations of one stretch of the text, takes those before it
// (proved by the other copies) as given, and stops at its end.
func pieces(buf []string) [][]string {
	type rng struct{ b, e int }
	var cuts []int
	var bodies []rng
	var open []int
	piece := make([]int, len(buf))
	n := 0
	for i, l := range buf {
		k := strings.TrimSpace(l)
		if strings.HasPrefix(k, "//@CUT") {
			n++
			cuts = append(cuts, i)
			switch strings.TrimSpace(k[6:]) {
			case "B":
				open = append(open, i)
			case "E":
				bodies = append(bodies, rng{open[len(open)-1], i})
				open = open[:len(open)-1]
			}
		}
		piece[i] = n
	}
	var out [][]string
	for j := 0; j <= n; j++ {
		var has []int
		for i, l := range buf {
			if piece[i] == j && (strings.Contains(l, "/*OB ") || strings.Contains(l, "/*COVER ")) {
				has = append(has, i)
			}
		}
		if len(has) == 0 {
			continue
		}
		skip := map[int]bool{}
		for _, b := range bodies {
			in := false
			for _, x := range has {
				in = in || (b.b < x && x < b.e)
			}
			// a body that can be left by a break (or a return of an inlined function) is part of what comes before a later piece
			left := false
			for _, l := range buf[b.b:b.e] {
				left = left || leftRe.MatchString(l)
			}
			skip[b.b] = !in && !left
		}
		var cp []string
		for i, l := range buf {
			if strings.HasPrefix(strings.TrimSpace(l), "//@CUT") {
				if skip[i] || piece[i] == j+1 {
					cp = append(cp, "assume(false);")
				}
				continue
			}
			if k := strings.Index(l, "/*OB "); k >= 0 && piece[i] != j {
				l = strings.Replace(l[:k], "assert(", "assume(", 1)
			}
			if (strings.HasSuffix(l, "/*HINT*/") || strings.Contains(l, "/*COVER ")) && piece[i] != j {
				continue
			}
			cp = append(cp, l)
		}
		out = append(out, cp)
	}
	return out
}

// emitHint: a hint is dropped in the pieces that do not contain it, unless it starts with "keep;"
func (t *Fn) emitHint(code string) {
	mark := "/*HINT*/"
	if k := strings.TrimPrefix(strings.TrimSpace(code), "{"); strings.HasPrefix(strings.TrimSpace(k), "keep;") {
		code = "{" + strings.TrimPrefix(strings.TrimSpace(k), "keep;")
		mark = "/*KEPT*/"
	}
	t.emit("%s %s", oneLine(t.subst(code, t.localEnv())), mark)
}

func (t *Fn) assume(e string) { t.emit("assume(%s);", oneLine(e)) }

func (t *Fn) modify(f string) {
	t.mods[f] = true
	t.u.field(f)
}

func (t *Fn) assign(v *Var) {
	for _, m := range t.asg {
		m[v] = true
	}
}

func (t *Fn) setHeap(f, ref, val string) {
	t.modify(f)
	t.emit("h = Heap{%s: h.%s.insert(%s, %s), ..h};", f, f, ref, val)
}

func (t *Fn) storeField(f, ref, val string) {
	t.lockWrite(ref, "")
	t.setHeap(f, ref, val)
}

func (t *Fn) lockWrite(ref, what string) {
	if t.spec.lockOf == "" || t.dry > 0 {
		return
	}
	t.ob("lock_write"+what, []string{"C23"}, fmt.Sprintf("h.Locker_held[%s] == 2 || %s >= h0.top || -(%s) >= h0.top", t.subst(t.spec.lockOf, t.entryEnv()), ref, ref))
}

func (t *Fn) push() { t.scope = append(t.scope, map[string]*Var{}) }
func (t *Fn) pop()  { t.scope = t.scope[:len(t.scope)-1] }

func (t *Fn) declare(o types.Object, name, ty string) *Var {
	if a, ok := t.alias[o]; ok && o != nil {
		name = a
	}
	v := &Var{rust: t.fresh("v_" + name), rty: ty, name: name, obj: o}
	if o != nil {
		t.vars[o] = v
	}
	t.scope[len(t.scope)-1][name] = v
	return v
}

var identRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_]*`)

// subst replaces identifiers of a specification text.
func (t *Fn) subst(e string, env map[string]string) string {
	var sb strings.Builder
	last := 0
	for _, m := range identRe.FindAllStringIndex(e, -1) {
		w := e[m[0]:m[1]]
		if m[0] > 0 {
			c := e[m[0]-1]
			if c >= '0' && c <= '9' { // numeric suffix
				continue
			}
			if c == '.' && !(m[0] > 1 && e[m[0]-2] == '.') {
				continue
			}
			if c == ':' && m[0] > 1 && e[m[0]-2] == ':' {
				continue
			}
		}
		// struct field initialisers "x:" keep their name when preceded by { or , and followed by a single ':'
		r, ok := env[w]
		if !ok {
			continue
		}
		sb.WriteString(e[last:m[0]])
		sb.WriteString(r)
		last = m[1]
	}
	sb.WriteString(e[last:])
	return sb.String()
}

func (t *Fn) entryEnv() map[string]string {
	env := map[string]string{}
	for k, v := range t.entry {
		env[k] = v
	}
	return env
}

// localEnv is the environment of hints and invariants: Go names of visible variables.
func (t *Fn) localEnv() map[string]string {
	env := map[string]string{}
	for k, v := range t.entry {
		env[k] = v
		env[k+"_in"] = v
	}
	for _, s := range t.scope {
		for k, v := range s {
			env[k] = v.rust
		}
	}
	for k, v := range t.resEnv {
		env[k] = v
	}
	// in specifications h and h0 are heaps
	delete(env, "h")
	delete(env, "h0")
	return env
}

func (t *Fn) point(p string) {
	for _, h := range t.spec.hints {
		if h.point == p {
			t.emitHint(h.code)
		}
	}
	for _, g := range t.spec.ghosts {
		if g.point == p {
			t.ghostStmt(g, nil)
		}
	}
	for _, h := range t.spec.hints {
		if h.point == p+"!" { // after the ghost updates of the same point
			t.emitHint(h.code)
		}
	}
}

func (t *Fn) ghostStmt(g GhostStmt, cenv map[string]string) {
	env := t.localEnv()
	for k, v := range cenv {
		if k != "h" && k != "h0" {
			env["c_"+k] = v
		}
	}
	if hp, ok := cenv["h0"]; ok {
		env["hp"] = hp
	}
	if g.at != "" {
		t.modify(g.target)
		t.emit("h = Heap{%s: h.%s.insert(%s, %s), ..h};", g.target, g.target, oneLine(t.subst(g.at, env)), oneLine(t.subst(g.expr, env)))
	} else if v := t.lookup(g.target); v != nil {
		t.assign(v)
		t.emit("%s = %s;", v.rust, oneLine(t.subst(g.expr, env)))
	} else {
		t.modify(g.target)
		t.emit("h = Heap{%s: %s, ..h};", g.target, oneLine(t.subst(g.expr, env)))
	}
}

func (t *Fn) lookup(name string) *Var {
	for i := len(t.scope) - 1; i >= 0; i-- {
		if v, ok := t.scope[i][name]; ok {
			return v
		}
	}
	return nil
}

func src(fset *token.FileSet, n ast.Node) string {
	var b bytes.Buffer
	printer.Fprint(&b, fset, n)
	return oneLine(b.String())
}

// ---------- statements ----------

type flags map[string]bool

func (f flags) or(g flags) flags {
	if len(g) == 0 {
		return f
	}
	r := flags{}
	for k := range f {
		r[k] = true
	}
	for k := range g {
		r[k] = true
	}
	return r
}

func (f flags) cond() string {
	var ks []string
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, " || ")
}

func (t *Fn) block(list []ast.Stmt) flags {
	t.push()
	defer t.pop()
	return t.stmts_(list)
}

func (t *Fn) stmts_(list []ast.Stmt) flags {
	var all flags
	opened := 0
	for i, s := range list {
		fl := t.stmt(s)
		if len(fl) > 0 {
			all = all.or(fl)
			if i < len(list)-1 {
				t.emit("if !(%s) {", fl.cond())
				t.ind++
				opened++
			}
		}
	}
	for ; opened > 0; opened-- {
		t.ind--
		t.emit("}")
	}
	return all
}

func (t *Fn) stmt(s ast.Stmt) flags {
	if s == nil {
		return nil
	}
	save := t.curPos
	t.curPos = s.Pos()
	defer func() { t.curPos = save }()
	var pt string
	switch s.(type) {
	case *ast.AssignStmt, *ast.ExprStmt, *ast.IncDecStmt, *ast.ReturnStmt, *ast.DeclStmt:
		txt := t.stmtText(s)
		t.stmts[txt]++
		pt = fmt.Sprintf("stmt:%q#%d", txt, t.stmts[txt])
		t.point(pt + ".before")
		if t.stmts[txt] == 1 {
			t.point(fmt.Sprintf("stmt:%q.before", txt))
		}
	}
	fl := t.stmt1(s)
	if pt != "" {
		t.point(pt + ".after")
		txt := t.stmtText(s)
		if t.stmts[txt] == 1 {
			t.point(fmt.Sprintf("stmt:%q.after", txt))
		}
	}
	return fl
}

func (t *Fn) stmt1(s ast.Stmt) flags {
	switch s := s.(type) {
	case *ast.BlockStmt:
		return t.block(s.List)
	case *ast.EmptyStmt:
		return nil
	case *ast.LabeledStmt:
		return t.stmt(s.Stmt)
	case *ast.ExprStmt:
		if c, ok := unparen(s.X).(*ast.CallExpr); ok {
			return t.callStmt(c)
		}
		t.expr(s.X)
		return nil
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		ty := t.typ(s.X)
		lv := t.lval(s.X)
		cur := lv.load()
		one := t.lit(constant.MakeInt64(1), ty)
		lv.store(t.arith(op, cur, one, ty))
		return nil
	case *ast.AssignStmt:
		t.assignStmt(s)
		return nil
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return nil
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, nm := range vs.Names {
					o := t.fr().info.Defs[nm]
					t.declInit(nm, o, t.zeroValue(o.Type()), o.Type())
				}
			} else if len(vs.Values) == len(vs.Names) {
				var vals []string
				for i, nm := range vs.Names {
					o := t.fr().info.Defs[nm]
					_ = o
					vals = append(vals, t.tmp(t.exprTo(vs.Values[i], t.fr().info.Defs[nm].Type())))
				}
				for i, nm := range vs.Names {
					o := t.fr().info.Defs[nm]
					t.declInit(nm, o, t.copyStruct(vals[i], o.Type(), vs.Values[i]), o.Type())
				}
			} else {
				vals, tys := t.multi(vs.Values[0])
				for i, nm := range vs.Names {
					o := t.fr().info.Defs[nm]
					t.declInit(nm, o, conv(vals[i], rty(tys[i]), rty(o.Type())), o.Type())
				}
			}
		}
		return nil
	case *ast.IfStmt:
		t.push()
		defer t.pop()
		if s.Init != nil {
			t.stmt(s.Init)
		}
		c := t.expr(s.Cond)
		t.emit("if %s {", c)
		t.ind++
		f1 := t.block(s.Body.List)
		t.ind--
		var f2 flags
		if s.Else != nil {
			t.emit("} else {")
			t.ind++
			f2 = t.stmt(s.Else)
			t.ind--
		}
		t.emit("}")
		return f1.or(f2)
	case *ast.ForStmt:
		return t.forStmt(s)
	case *ast.RangeStmt:
		return t.rangeStmt(s)
	case *ast.ReturnStmt:
		return t.returnStmt(s)
	case *ast.BranchStmt:
		if s.Label != nil {
			t.fail("labelled branch")
		}
		lc := t.fr().loops
		if len(lc) == 0 {
			t.fail("branch outside loop")
		}
		l := lc[len(lc)-1]
		switch s.Tok {
		case token.BREAK:
			t.emit("%s = true;", l.brk)
			return flags{l.brk: true}
		case token.CONTINUE:
			if l.cont == "" {
				// continue inside a switch inside a loop
				for i := len(lc) - 1; i >= 0; i-- {
					if lc[i].cont != "" {
						t.emit("%s = true;", lc[i].cont)
						return flags{lc[i].cont: true}
					}
				}
				t.fail("continue outside loop")
			}
			t.emit("%s = true;", l.cont)
			return flags{l.cont: true}
		}
		t.fail("branch %v", s.Tok)
	case *ast.SwitchStmt:
		return t.switchStmt(s)
	case *ast.DeferStmt:
		if !t.fr().direct[s] {
			t.fail("conditional defer")
		}
		t.fr().defers = append(t.fr().defers, s.Call)
		return nil
	}
	t.fail("statement %T", s)
	return nil
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (t *Fn) declInit(nm *ast.Ident, o types.Object, val string, ty types.Type) *Var {
	if nm.Name == "_" {
		return nil
	}
	v := t.declare(o, nm.Name, rty(ty))
	t.emit("let mut %s: %s = %s;", v.rust, v.rty, val)
	return v
}

func (t *Fn) switchStmt(s *ast.SwitchStmt) flags {
	t.push()
	defer t.pop()
	if s.Init != nil {
		t.stmt(s.Init)
	}
	tag, tagTy := "", types.Type(types.Typ[types.Bool])
	if s.Tag != nil {
		tag = t.tmp(t.expr(s.Tag))
		tagTy = t.typ(s.Tag)
	}
	brk := t.fresh("brk")
	t.emit("let mut %s = false;", brk)
	t.fr().loops = append(t.fr().loops, &loopCtx{brk: brk})
	defer func() { t.fr().loops = t.fr().loops[:len(t.fr().loops)-1] }()
	done := t.fresh("sw")
	t.emit("let mut %s = false;", done)
	var all flags
	var def *ast.CaseClause
	run := func(body []ast.Stmt) {
		for _, b := range body {
			if br, ok := b.(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
				t.fail("fallthrough")
			}
		}
		f := t.block(body)
		delete(f, brk)
		all = all.or(f)
	}
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		t.emit("if !%s {", done)
		t.ind++
		var conds []string
		for _, e := range cc.List {
			if tag != "" {
				conds = append(conds, t.equal(tag, t.exprTo(e, tagTy), tagTy))
			} else {
				conds = append(conds, t.expr(e))
			}
		}
		t.emit("if %s {", strings.Join(conds, " || "))
		t.ind++
		t.emit("%s = true;", done)
		run(cc.Body)
		t.ind--
		t.emit("}")
		t.ind--
		t.emit("}")
	}
	if def != nil {
		t.emit("if !%s {", done)
		t.ind++
		run(def.Body)
		t.ind--
		t.emit("}")
	}
	return all
}

func (t *Fn) returnStmt(s *ast.ReturnStmt) flags {
	f := t.fr()
	var vals []string
	if len(s.Results) == 0 {
		for _, v := range f.res {
			vals = append(vals, v.rust)
		}
	} else if len(s.Results) == 1 && len(f.resTy) > 1 {
		vs, tys := t.multi(s.Results[0])
		for i, v := range vs {
			vals = append(vals, conv(v, rty(tys[i]), rty(f.resTy[i])))
		}
	} else {
		for i, e := range s.Results {
			vals = append(vals, t.tmp(t.exprTo(e, f.resTy[i])))
		}
	}
	for i, v := range f.res {
		if v.rust != vals[i] {
			t.emit("%s = %s;", v.rust, vals[i])
			t.assign(v)
		}
	}
	if f.top {
		t.exit()
		t.emit("assume(false);")
		return nil
	}
	t.emit("%s = true;", f.flag)
	return flags{f.flag: true}
}

func (t *Fn) runDefers() {
	f := t.fr()
	ds := f.defers
	f.defers = nil
	for i := len(ds) - 1; i >= 0; i-- {
		t.call(ds[i])
	}
	f.defers = ds
}

// exit emits the postconditions.
func (t *Fn) exit() {
	t.runDefers()
	rn := map[string]string{}
	for i, v := range t.frames[0].res {
		nm := ""
		if i < len(t.spec.results) {
			nm = t.spec.results[i]
		} else if len(t.frames[0].res) == 1 {
			nm = "r"
		} else {
			nm = fmt.Sprintf("r%d", i)
		}
		rn[nm] = v.rust
	}
	t.resEnv = rn
	defer func() { t.resEnv = nil }()
	if t.dry > 0 {
		for _, g := range t.spec.ghosts {
			if g.point == "exit" {
				t.point("exit")
				break
			}
		}
		return
	}
	t.coverPoint("exit")
	t.cut("")
	t.point("exit")
	env := t.entryEnv()
	for k, v := range rn {
		env[k] = v
	}
	for _, gv := range t.spec.ghostvars {
		if v := t.lookup(gv[0]); v != nil {
			env[gv[0]] = v.rust
		}
	}
	for _, p := range t.spec.panics {
		e2 := t.entryEnv()
		e2["h"] = "h0"
		t.ob("panics_iff", nil, "!("+t.subst(p, e2)+")")
	}
	t.frame("frame", false)
	for i, c := range t.spec.ensures {
		t.point(fmt.Sprintf("post.%s", c.label))
		l := c.label
		if l == "" {
			l = strconv.Itoa(i + 1)
		}
		t.ob("ensures_"+l, c.tags, t.subst(c.expr, env))
	}
	if t.spec.lockOf != "" {
		l := t.subst(t.spec.lockOf, t.entryEnv())
		t.ob("lock_released", []string{"C23"}, fmt.Sprintf("h.Locker_held[%s] == 0", l))
		t.ob("lock_one_section", []string{"C23"}, fmt.Sprintf("h.Locker_sections[%s] == h0.Locker_sections[%s] + %s", l, l, t.sections(t.spec, t.entryEnv())))
		if t.spec.lock2 != "" {
			t.ob("lock_released", []string{"C23"}, fmt.Sprintf("h.Locker_held[%s] == 0", t.subst(t.spec.lock2, t.entryEnv())))
		}
	}
}

func (t *Fn) modOf(f string) *Mod {
	for i := range t.spec.mods {
		if t.spec.mods[i].field == f {
			return &t.spec.mods[i]
		}
	}
	return nil
}

// coverPoint emits an assertion that must fail: the point is reachable under the assumptions made.
func (t *Fn) coverPoint(l string) {
	if !t.u.cover || t.dry > 0 {
		return
	}
	b := t.havoc("bool")
	t.emit("if %s {", b)
	t.emit("assert(false); /*COVER %s#%s*/", t.key, l)
	t.emit("assume(false);")
	t.emit("}")
}

// frame emits the frame conditions for the fields that may have changed.
func (t *Fn) frame(label string, asAssume bool) {
	var fs []string
	for f := range t.modset() {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		if f == "top" {
			continue
		}
		e := t.frameCond(f)
		if e == "" {
			continue
		}
		if asAssume {
			t.assume(e)
		} else {
			t.ob(label+"_"+f, nil, e)
		}
	}
}

func (t *Fn) modset() map[string]bool { return t.u.modset(t.key) }

func (t *Fn) frameCond(f string) string {
	m := t.modOf(f)
	if m != nil && m.all {
		return ""
	}
	if !t.u.isMapField(f) {
		return fmt.Sprintf("h.%s == h0.%s", f, f)
	}
	env := t.entryEnv()
	env["h"] = "h0"
	cond := "old_ref(h0, rr)"
	if m != nil {
		for _, r := range m.refs {
			if r == "fresh" {
				continue
			}
			cond += " && rr != (" + t.subst(r, env) + ")"
		}
	}
	return fmt.Sprintf("forall|rr: int| #![trigger h.%s[rr]] %s ==> h.%s[rr] == h0.%s[rr]", f, cond, f, f)
}

// check emits a runtime-check obligation: it must hold, unless the contract says the function panics here.
func (t *Fn) check(label, cond string) {
	if t.dry > 0 {
		return
	}
	// a proven condition is also available afterwards (assert does that)
	env := t.entryEnv()
	env["h"] = "h0"
	var pans []string
	for _, p := range t.spec.panics {
		pans = append(pans, "("+t.subst(p, env)+")")
	}
	for _, p := range t.spec.maypanic {
		pans = append(pans, "("+t.subst(p, env)+")")
	}
	nd := 0
	for _, f := range t.frames {
		nd += len(f.defers)
	}
	if len(pans) == 0 && nd == 0 {
		t.ob(label, nil, cond)
		return
	}
	pc := "false"
	if len(pans) > 0 {
		pc = strings.Join(pans, " || ")
	}
	t.emit("if !(%s) {", cond)
	t.ind++
	t.unwind()
	t.ob(label, nil, pc)
	if len(pans) > 0 {
		t.ob(label+"_unchanged", nil, "hsame(h0, h)")
	}
	t.releasedOnPanic("lock_released_on_panic")
	t.emit("assume(false);")
	t.ind--
	t.emit("}")
}

// unwind runs the registered defers of all frames, as a panic does.
func (t *Fn) unwind() {
	save := t.frames
	for i := len(save) - 1; i >= 0; i-- {
		if len(save[i].defers) > 0 {
			t.frames = save[:i+1]
			t.runDefers()
		}
	}
	t.frames = save
}

func (t *Fn) releasedOnPanic(label string) {
	if t.spec.lockOf == "" {
		return
	}
	for _, l := range []string{t.spec.lockOf, t.spec.lock2} {
		if l != "" {
			t.ob(label, []string{"C23"}, fmt.Sprintf("h.Locker_held[%s] == 0", t.subst(l, t.entryEnv())))
		}
	}
}

// mayPanic: code of the caller of the library runs here, and may panic; the locks must be free then.
func (t *Fn) mayPanic() {
	t.called["<callback>"] = true
	if t.dry > 0 || t.spec.lockOf == "" || t.unwinding {
		return
	}
	t.unwinding = true
	t.emit("if %s {", t.havoc("bool"))
	t.ind++
	t.unwind()
	t.releasedOnPanic("lock_released_if_callback_panics")
	t.emit("assume(false);")
	t.ind--
	t.emit("}")
	t.unwinding = false
}

func (t *Fn) sections(sp *FuncSpec, env map[string]string) string {
	if sp.sections == "" {
		return "1"
	}
	return "(" + t.subst(sp.sections, env) + ")"
}

// callsBack reports whether a call may run code of the library's user.
func (u *Unit) callsBack(key string, sp *FuncSpec) bool {
	if sp.functype {
		return true
	}
	if sp.iface {
		return !sp.nopanic && !strings.Contains(key, "Locker.")
	}
	if u.fns[key] == nil {
		return false
	}
	u.modset(key)
	return u.reaches(key, "<callback>")
}

func (t *Fn) explicitPanic() {
	t.check("panic", "false")
	t.emit("assume(false);")
}

// ---------- loops ----------

type snap struct {
	buf           []string
	havocs        []string
	n, loopN, dry int
	calls, stmts  map[string]int
	obs           []OB
	obn           map[string]int
	mods          map[string]bool
	vars          map[types.Object]*Var
	scope         []map[string]*Var
	frames        []*Frame
	resEnv        map[string]string // header result names, at exits
	frameCopies   []Frame
	allocs        bool
	ind           int
}

func cpI(m map[string]int) map[string]int {
	r := map[string]int{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (t *Fn) snapshot() *snap {
	s := &snap{buf: t.buf, havocs: append([]string(nil), t.havocs...), n: t.n, loopN: t.loopN, dry: t.dry,
		calls: cpI(t.calls), stmts: cpI(t.stmts), obs: append([]OB(nil), t.obs...), obn: cpI(t.obn), allocs: t.allocs, ind: t.ind}
	s.mods = map[string]bool{}
	for k := range t.mods {
		s.mods[k] = true
	}
	s.vars = map[types.Object]*Var{}
	for k, v := range t.vars {
		s.vars[k] = v
	}
	for _, sc := range t.scope {
		c := map[string]*Var{}
		for k, v := range sc {
			c[k] = v
		}
		s.scope = append(s.scope, c)
	}
	s.frames = append([]*Frame(nil), t.frames...)
	for _, f := range t.frames {
		c := *f
		c.loops = append([]*loopCtx(nil), f.loops...)
		c.defers = append([]*ast.CallExpr(nil), f.defers...)
		s.frameCopies = append(s.frameCopies, c)
	}
	return s
}

func (t *Fn) restore(s *snap) {
	t.buf, t.havocs, t.n, t.loopN, t.dry = s.buf, s.havocs, s.n, s.loopN, s.dry
	t.calls, t.stmts, t.obs, t.obn, t.mods, t.vars, t.scope, t.allocs, t.ind = s.calls, s.stmts, s.obs, s.obn, s.mods, s.vars, s.scope, s.allocs, s.ind
	t.frames = s.frames
	for i := range t.frames {
		*t.frames[i] = s.frameCopies[i]
	}
}

// dryRun finds what a piece of code assigns.
func (t *Fn) dryRun(f func()) (vars []*Var, mods map[string]bool) {
	s := t.snapshot()
	t.dry++
	t.buf = nil
	t.mods = map[string]bool{}
	a := map[*Var]bool{}
	t.asg = append(t.asg, a)
	f()
	t.asg = t.asg[:len(t.asg)-1]
	mods = t.mods
	live := map[*Var]bool{}
	for _, v := range s.vars {
		live[v] = true
	}
	for _, sc := range s.scope {
		for _, v := range sc {
			live[v] = true
		}
	}
	for _, fr := range s.frames {
		for _, v := range fr.res {
			live[v] = true
		}
	}
	for v := range a {
		if live[v] {
			vars = append(vars, v)
		}
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].rust < vars[j].rust })
	t.restore(s)
	for k := range mods {
		t.mods[k] = true
	}
	return
}

type cutLoop struct {
	auto  []string // invariants supplied by the translator
	cond  func() string
	pre   func()
	body  []ast.Stmt
	bodyF func() flags
	post  func()
	dec   string
	nodec bool
}

func (t *Fn) loop(c *cutLoop) flags {
	t.loopN++
	ln := t.loopN
	ls := t.spec.loops[ln]
	if ls == nil {
		ls = &LoopSpec{}
	}
	name := fmt.Sprintf("loop%d", ln)
	t.point(name + ".before")
	f := t.fr()
	run := func() (string, *loopCtx, flags) {
		t.point(name + ".head")
		cond := "true"
		if c.cond != nil {
			cond = c.cond()
		}
		lc := &loopCtx{brk: t.fresh("brk"), cont: t.fresh("cont")}
		t.emit("let mut %s = false;", lc.brk)
		t.emit("let mut %s = false;", lc.cont)
		t.emit("if %s {", cond)
		t.ind++
		t.cut("B")
		t.point(name + ".start")
		if c.pre != nil {
			c.pre()
		}
		f.loops = append(f.loops, lc)
		var fl flags
		if c.bodyF != nil {
			fl = c.bodyF()
		} else {
			fl = t.block(c.body)
		}
		f.loops = f.loops[:len(f.loops)-1]
		return cond, lc, fl
	}
	vars, mods := t.dryRun(func() {
		run()
		if c.post != nil {
			c.post()
		}
		t.point(name + ".end")
	})
	if t.spec.lockOf != "" && (mods["Locker_held"] || mods["Locker_sections"]) && t.dry == 0 {
		// an iteration leaves every lock as it found it
		hl := t.fresh("hk")
		t.emit("let %s = h;", hl)
		l := t.subst(t.spec.lockOf, t.entryEnv())
		same := fmt.Sprintf("h.Locker_held == %s.Locker_held", hl)
		if t.spec.inner {
			l2 := t.subst(t.spec.lock2, t.entryEnv())
			same = fmt.Sprintf("h.Locker_held[%s] == %s.Locker_held[%s] && h.Locker_held[%s] == %s.Locker_held[%s]", l, hl, l, l2, hl, l2)
		}
		c.auto = append(c.auto, fmt.Sprintf("%s && h.Locker_sections[%s] == %s.Locker_sections[%s]", same, l, hl, l))
	}
	invs := func(kind string) {
		if t.dry > 0 {
			return
		}
		env := t.localEnv()
		for i, a := range c.auto {
			t.ob(fmt.Sprintf("%s_auto%d_%s", name, i+1, kind), nil, a)
		}
		for i, iv := range ls.invs {
			l := iv.label
			if l == "" {
				l = strconv.Itoa(i + 1)
			}
			t.ob(fmt.Sprintf("%s_%s_%s", name, l, kind), iv.tags, t.subst(iv.expr, env))
		}
		t.loopFrames(name, kind, mods, false)
	}
	invs("entry")
	if ls.all && t.dry == 0 {
		for f := range t.modset() {
			if f != "top" {
				mods[f] = true
			}
		}
	}
	// havoc
	for _, v := range vars {
		t.assign(v)
		t.emit("%s = %s;", v.rust, t.havoc(v.rty))
	}
	var ms []string
	for m := range mods {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	hpre := ""
	if len(ms) > 0 {
		hpre = t.fresh("hl")
		t.emit("let %s = h;", hpre)
		var parts []string
		for _, m := range ms {
			t.modify(m)
			parts = append(parts, m+": "+t.havoc(t.u.fieldType(m)))
		}
		t.emit("h = Heap{%s, ..h};", strings.Join(parts, ", "))
		t.assume(hpre + ".top <= h.top")
		t.closedFacts(ms)
	}
	// typing facts of havocked variables
	for _, v := range vars {
		t.typeFact(v.rust, v.rty, objType(v.obj))
	}
	env := t.localEnv()
	for _, a := range c.auto {
		t.assume(a)
	}
	for _, iv := range ls.invs {
		t.assume(t.subst(iv.expr, env))
	}
	t.loopFrames(name, "", mods, true)
	var decs []string
	dl := ls.decs
	if len(dl) == 0 && c.dec != "" {
		dl = []string{c.dec}
	}
	for _, d := range dl {
		decs = append(decs, t.tmp(oneLine(t.subst(d, env))))
	}
	t.cut("")
	_, lc, fl := run()
	brk := t.fresh("flow")
	rest := flags{}
	for k := range fl {
		if k != lc.cont {
			rest[k] = true
		}
	}
	cnd := "true"
	if len(rest) > 0 {
		cnd = "!(" + rest.cond() + ")"
	}
	_ = brk
	t.emit("if %s {", cnd)
	t.ind++
	if c.post != nil {
		c.post()
	}
	t.coverPoint(name)
	t.point(name + ".end")
	invs("preserved")
	if t.dry == 0 {
		if len(decs) == 0 {
			if !t.spec.noterm {
				t.ob(name+"_terminates", nil, "false /* no measure given */")
			}
		} else {
			env := t.localEnv()
			// lexicographic
			var alts []string
			eq := ""
			for i, d := range dl {
				nd := oneLine(t.subst(d, env))
				alts = append(alts, fmt.Sprintf("(%s(%s) < %s && %s >= 0)", eq, nd, decs[i], decs[i]))
				eq += fmt.Sprintf("(%s) == %s && ", nd, decs[i])
			}
			t.ob(name+"_terminates", nil, strings.Join(alts, " || "))
		}
	}
	t.emit("assume(false);")
	t.ind--
	t.emit("}")
	t.cut("E")
	t.ind--
	t.emit("}")
	t.point(name + ".after")
	delete(rest, lc.brk)
	return rest
}

func objType(o types.Object) types.Type {
	if o == nil {
		return nil
	}
	return o.Type()
}

func (t *Fn) loopFrames(name, kind string, mods map[string]bool, assume bool) {
	var fs []string
	for f := range mods {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		if f == "top" {
			continue
		}
		e := t.frameCond(f)
		if e == "" {
			continue
		}
		if assume {
			t.assume(e)
		} else if t.dry == 0 {
			t.ob(name+"_frame_"+f+"_"+kind, nil, e)
		}
	}
}

func (t *Fn) forStmt(s *ast.ForStmt) flags {
	if b := sameStep(s); b != nil {
		return t.forStmt(b)
	}
	t.push()
	defer t.pop()
	if s.Init != nil {
		t.stmt(s.Init)
	}
	c := &cutLoop{body: s.Body.List}
	if id := t.counting(s); id != nil {
		b, known := t.u.loops[t.key][strconv.Itoa(t.loopN+1)]
		if known && b.Range == "" {
			// a counter where the contract was written: its invariants say what is needed
			if v := t.vars[t.fr().info.Defs[id]]; v != nil {
				t.counter(v, "", "")
			}
		} else if v := t.vars[t.fr().info.Defs[id]]; v != nil && v.rty == "int" {
			hi := s.Cond.(*ast.BinaryExpr).Y
			lo := t.fresh("lo")
			t.emit("let %s = %s;", lo, v.rust)
			c.auto = append(c.auto, fmt.Sprintf("%s <= %s", lo, v.rust))
			rs := ""
			if t.fixed(hi, s.Body) {
				n := t.tmp(t.expr(hi))
				c.auto = append(c.auto, fmt.Sprintf("%s <= %s || %s == %s", v.rust, n, v.rust, lo))
				c.dec = n + " - " + v.rust
				if call, ok := ast.Unparen(hi).(*ast.CallExpr); ok {
					if tv := t.fr().info.Types[hi]; tv.Value == nil {
						rs = t.tmp(t.expr(call.Args[0]))
					}
				}
			}
			t.counter(v, "", rs)
		} else if v != nil {
			t.counter(v, "", "")
		}
	}
	if s.Cond != nil {
		c.cond = func() string { return t.expr(s.Cond) }
	}
	if s.Post != nil {
		c.post = func() { t.stmt(s.Post) }
	}
	return t.loop(c)
}

// sameStep turns for x := E; cond; x = E { body } into for { x := E; if cond {} else { break }; body }:
// E is evaluated at the same places.
func sameStep(s *ast.ForStmt) *ast.ForStmt {
	in, ok := s.Init.(*ast.AssignStmt)
	post, ok2 := s.Post.(*ast.AssignStmt)
	if !ok || !ok2 || in.Tok != token.DEFINE || post.Tok != token.ASSIGN || s.Cond == nil || len(in.Lhs) != len(post.Lhs) || len(in.Rhs) != len(post.Rhs) {
		return nil
	}
	for i := range in.Lhs {
		if types.ExprString(in.Lhs[i]) != types.ExprString(post.Lhs[i]) {
			return nil
		}
		for _, r := range in.Rhs {
			uses := false
			ast.Inspect(r, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok && id.Name == types.ExprString(in.Lhs[i]) {
					uses = true
				}
				return true
			})
			if uses {
				return nil
			}
		}
	}
	for i := range in.Rhs {
		if types.ExprString(in.Rhs[i]) != types.ExprString(post.Rhs[i]) {
			return nil
		}
	}
	stop := &ast.BranchStmt{TokPos: s.Cond.End(), Tok: token.BREAK}
	test := &ast.IfStmt{If: s.Cond.Pos(), Cond: s.Cond, Body: &ast.BlockStmt{Lbrace: s.Cond.End(), Rbrace: s.Cond.End()},
		Else: &ast.BlockStmt{Lbrace: s.Cond.End(), List: []ast.Stmt{stop}, Rbrace: s.Cond.End()}}
	body := &ast.BlockStmt{Lbrace: s.Body.Lbrace, Rbrace: s.Body.Rbrace}
	body.List = append([]ast.Stmt{in, test}, s.Body.List...)
	return &ast.ForStmt{For: s.For, Body: body}
}

// nameOf is the name contracts know a declared variable by.
func (t *Fn) nameOf(id *ast.Ident) string {
	if a, ok := t.alias[t.fr().info.Defs[id]]; ok && t.fr().info.Defs[id] != nil {
		return a
	}
	return id.Name
}

func (t *Fn) rangeStmt(s *ast.RangeStmt) flags {
	t.push()
	defer t.pop()
	ty := t.typ(s.X)
	if b, ok := ty.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		n := t.tmp(t.expr(s.X))
		name := "range_idx"
		if id, ok := s.Key.(*ast.Ident); ok && id.Name != "_" {
			name = t.nameOf(id)
		}
		iv := t.declare(nil, name, "int")
		t.emit("let mut %s: int = 0;", iv.rust)
		c := &cutLoop{body: s.Body.List, cond: func() string { return fmt.Sprintf("%s < %s", iv.rust, n) },
			auto: []string{fmt.Sprintf("0 <= %s && (%s <= %s || %s == 0)", iv.rust, iv.rust, n, iv.rust)},
			dec:  n + " - " + iv.rust}
		t.counter(iv, "", "")
		c.pre = func() {
			if id, ok := s.Key.(*ast.Ident); ok && id.Name != "_" {
				t.push()
				t.declInit(id, t.fr().info.Defs[id], iv.rust, types.Typ[types.Int])
			} else {
				t.push()
			}
		}
		c.post = func() { t.emit("%s = %s + 1;", iv.rust, iv.rust); t.assign(iv) }
		c.bodyF = func() flags { f := t.block(s.Body.List); t.pop(); return f }
		return t.loop(c)
	}
	sl, ok := ty.Underlying().(*types.Slice)
	if !ok {
		t.fail("range over %v", ty)
	}
	x := t.tmp(t.expr(s.X))
	x2 := t.fresh("rs")
	t.emit("let %s = %s;", x2, x)
	name := "range_idx"
	keyId, _ := s.Key.(*ast.Ident)
	valId, _ := s.Value.(*ast.Ident)
	if keyId != nil && keyId.Name != "_" {
		name = t.nameOf(keyId)
	} else if valId != nil && valId.Name != "_" {
		name = t.nameOf(valId) + "_idx"
	}
	iv := t.declare(nil, name, "int")
	t.emit("let mut %s: int = 0;", iv.rust)
	rsv := t.declare(nil, name+"_range", "Slice")
	rsv.rust = x2
	t.counter(iv, name+"_range", x2)
	t.ranged(ty, x2)
	c := &cutLoop{
		cond: func() string { return fmt.Sprintf("%s < %s.len", iv.rust, x2) },
		auto: []string{fmt.Sprintf("0 <= %s && %s <= %s.len", iv.rust, iv.rust, x2)},
		dec:  x2 + ".len - " + iv.rust,
		post: func() { t.emit("%s = %s + 1;", iv.rust, iv.rust); t.assign(iv) },
	}
	c.bodyF = func() flags {
		t.push()
		defer t.pop()
		if keyId != nil && keyId.Name != "_" {
			if s.Tok == token.DEFINE {
				t.declInit(keyId, t.fr().info.Defs[keyId], iv.rust, types.Typ[types.Int])
			} else {
				t.lval(keyId).store(iv.rust)
			}
		}
		if valId != nil && valId.Name != "_" {
			e := t.loadElem(x2, iv.rust, sl.Elem())
			if s.Tok == token.DEFINE {
				t.declInit(valId, t.fr().info.Defs[valId], e, sl.Elem())
			} else {
				t.lval(valId).store(e)
			}
		}
		return t.block(s.Body.List)
	}
	return t.loop(c)
}
