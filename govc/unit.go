package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type fnInfo struct {
	key  string
	pkg  *Pkg
	obj  *types.Func
	decl *ast.FuncDecl
}

type Unit struct {
	ld       *Loader
	spec     *UnitSpec
	fns      map[string]*fnInfo
	structs  map[string]*types.Named // by struct name
	names    map[string]string       // pkgpath.Name -> struct name
	dup      map[string]bool
	fieldTy  map[string]string
	dynUsed  map[string]*types.Named
	dynOrder []string
	ifaces   map[string]*types.Named
	ifOrder  []string
	consts   []string
	constNum map[string]int
	modc     map[string]map[string]bool
	prog     map[string]bool
	recSeen  bool
	calls    map[string]map[string]bool
	called   map[string]bool
	inlined  map[string]bool
	ghostTy  map[string]string
	cover    bool
	refField map[string]bool
	locals   map[string][]local
	loops    map[string]map[string]loopVar // as when the contracts were written
	loopsNow map[string]map[string]loopVar
}

func NewUnit(ld *Loader, spec *UnitSpec) (*Unit, error) {
	u := &Unit{ld: ld, spec: spec, fns: map[string]*fnInfo{}, structs: map[string]*types.Named{}, names: map[string]string{}, dup: map[string]bool{}, loopsNow: map[string]map[string]loopVar{},
		fieldTy: map[string]string{}, dynUsed: map[string]*types.Named{}, ifaces: map[string]*types.Named{}, constNum: map[string]int{},
		modc: map[string]map[string]bool{}, prog: map[string]bool{}, calls: map[string]map[string]bool{}, called: map[string]bool{}, inlined: map[string]bool{},
		ghostTy: map[string]string{}, refField: map[string]bool{}}
	for _, p := range append(append([]string{}, spec.pkgs...), spec.uses...) {
		if _, err := ld.Load(p); err != nil {
			return nil, err
		}
	}
	var rels []string
	for r := range ld.pkgs {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	for _, r := range rels {
		p := ld.pkgs[r]
		sc := p.tpkg.Scope()
		for _, nm := range sc.Names() {
			if tn, ok := sc.Lookup(nm).(*types.TypeName); ok {
				if n, ok := tn.Type().(*types.Named); ok {
					if _, ok := n.Underlying().(*types.Struct); ok {
						full := p.tpkg.Name() + "." + nm
						name := nm
						if a := spec.aliases[full]; a != "" {
							name = a
						}
						if name == "" {
							continue
						}
						if o := u.structs[name]; o != nil {
							u.dup[name] = true
						}
						u.structs[name] = n
						u.names[p.path+"."+nm] = name
					}
				}
			}
		}
		for o, d := range p.decls {
			if f, ok := o.(*types.Func); ok {
				k := funcKey(f)
				u.fns[k] = &fnInfo{k, p, f, d}
			}
		}
	}
	for _, g := range spec.ghosts {
		u.ghostTy[g.name] = g.typ
	}
	return u, nil
}

func (u *Unit) structName(n *types.Named) string {
	n = n.Origin()
	if n.Obj().Pkg() == nil {
		return n.Obj().Name()
	}
	if s, ok := u.names[n.Obj().Pkg().Path()+"."+n.Obj().Name()]; ok {
		return s
	}
	return n.Obj().Pkg().Name() + "_" + n.Obj().Name()
}

func (u *Unit) computeField(f string) string {
	if f == "top" {
		return "int"
	}
	if strings.HasPrefix(f, "arr_") {
		e := f[4:]
		if e == "str" {
			e = "Seq<u8>"
		}
		return "IMap<int, IMap<int, " + e + ">>"
	}
	if g, ok := u.ghostTy[f]; ok {
		if strings.HasPrefix(g, "!") {
			return strings.TrimSpace(g[1:])
		}
		return "IMap<int, " + g + ">"
	}
	for name, n := range u.structs {
		if strings.HasPrefix(f, name+"_") {
			st := n.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f[len(name)+1:] {
					if u.dup[name] {
						panic(unsupported{"ambiguous struct name " + name})
					}
					if isRef(st.Field(i).Type()) {
						u.refField[f] = true
					}
					return "IMap<int, " + rty(st.Field(i).Type()) + ">"
				}
			}
		}
	}
	return ""
}

func (u *Unit) field(f string) {
	if _, ok := u.fieldTy[f]; ok {
		return
	}
	ty := u.computeField(f)
	if ty == "" {
		panic(unsupported{"unknown heap field " + f})
	}
	u.fieldTy[f] = ty
}

func (u *Unit) fieldType(f string) string {
	u.field(f)
	return u.fieldTy[f]
}

func (u *Unit) isMapField(f string) bool { return strings.HasPrefix(u.fieldType(f), "IMap<int, ") }

func (u *Unit) elemType(f string) string {
	t := u.fieldType(f)
	return strings.TrimSuffix(strings.TrimPrefix(t, "IMap<int, "), ">")
}

func (u *Unit) dynID(n *types.Named) string {
	n = n.Origin()
	s := u.structName(n)
	if u.dynUsed[s] == nil {
		u.dynUsed[s] = n
		u.dynOrder = append(u.dynOrder, s)
	}
	return "dyn_" + s
}

// isFirst reports whether n is the type of the first field of some struct.
func (u *Unit) isFirst(n *types.Named) bool {
	for _, p := range u.ld.pkgs {
		sc := p.tpkg.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok || st.NumFields() == 0 {
				continue
			}
			if f, ok := types.Unalias(st.Field(0).Type()).(*types.Named); ok && f.Origin() == n {
				return true
			}
		}
	}
	return false
}

func ifaceName(n *types.Named) string {
	return n.Obj().Pkg().Name() + "_" + n.Obj().Name()
}

func (u *Unit) ifaceID(ty types.Type) string {
	n, _ := types.Unalias(ty).(*types.Named)
	if n == nil {
		panic(unsupported{"anonymous interface"})
	}
	if n.Obj().Pkg() == nil {
		return "if_" + n.Obj().Name()
	}
	s := ifaceName(n)
	if u.ifaces[s] == nil {
		u.ifaces[s] = n.Origin()
		u.ifOrder = append(u.ifOrder, s)
	}
	return "if_" + s
}

func (u *Unit) ifaceIDs(ty types.Type) []string {
	n, _ := types.Unalias(ty).(*types.Named)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Name() == "error" {
		return nil
	}
	var out []string
	seen := map[string]bool{}
	var walk func(n *types.Named)
	walk = func(n *types.Named) {
		id := u.ifaceID(n)
		if seen[id] {
			return
		}
		seen[id] = true
		out = append(out, id)
		it, ok := n.Underlying().(*types.Interface)
		if !ok {
			return
		}
		for i := 0; i < it.NumEmbeddeds(); i++ {
			if e, ok := types.Unalias(it.EmbeddedType(i)).(*types.Named); ok {
				walk(e)
			}
		}
	}
	walk(n)
	return out
}

// closed says that the references in a field are to existing objects.
func (u *Unit) closed(h, f string) string {
	if u.fieldType(f) == "IMap<int, Slice>" {
		return fmt.Sprintf("forall|rr: int| #![trigger %s.%s[rr]] slice_ok(%s.%s[rr], %s.top)", h, f, h, f, h)
	}
	if u.refField[f] {
		return fmt.Sprintf("forall|rr: int| #![trigger %s.%s[rr]] ref_ok(%s.%s[rr], %s.top)", h, f, h, f, h)
	}
	return ""
}

func (u *Unit) small(name string) int {
	if n, ok := u.constNum[name]; ok {
		return n
	}
	n := len(u.constNum) + 1
	u.constNum[name] = n
	return n
}

func (u *Unit) funcValue(f *types.Func) string {
	k := strings.ReplaceAll(funcKey(f), ".", "_")
	nm := "fv_" + k
	if _, ok := u.constNum[nm]; !ok {
		u.consts = append(u.consts, fmt.Sprintf("pub open spec fn %s() -> int { %dint }", nm, u.small(nm)))
	}
	return nm + "()"
}

func (u *Unit) globalConst(o *types.Var) string {
	nm := "gc_" + o.Pkg().Name() + "_" + o.Name()
	r := rty(o.Type())
	if _, ok := u.constNum[nm]; !ok {
		n := u.small(nm)
		switch {
		case r == "int" && (isRef(o.Type()) || isFuncTy(o.Type()) || isStruct(o.Type())):
			u.consts = append(u.consts, fmt.Sprintf("pub open spec fn %s() -> int { %dint }", nm, n))
		default:
			u.consts = append(u.consts, fmt.Sprintf("pub uninterp spec fn %s() -> %s;", nm, r))
		}
	}
	return nm + "()"
}

func isFuncTy(ty types.Type) bool {
	_, ok := ty.Underlying().(*types.Signature)
	return ok
}

// guardedCallee reports whether a call reads state of a container.
func (u *Unit) guardedCallee(key string) bool {
	fi := u.fns[key]
	if fi == nil {
		return strings.Count(key, ".") == 2 && u.spec.funcs[key] != nil && u.spec.funcs[key].iface
	}
	return fi.decl.Recv != nil
}

// modset computes the heap fields a function may change (its own and its callees').
func (u *Unit) modset(key string) map[string]bool {
	sp := u.spec.funcs[key]
	if m, ok := u.modc[key]; ok {
		if u.prog[key] {
			u.recSeen = true
		}
		return m
	}
	if sp != nil && sp.trusted {
		m := map[string]bool{}
		for _, x := range sp.mods {
			m[x.field] = true
		}
		if sp.allocs {
			m["top"] = true
		}
		u.modc[key] = m
		return m
	}
	u.modc[key] = map[string]bool{}
	u.prog[key] = true
	outer := len(u.prog) == 1
	for iter := 0; iter < 6; iter++ {
		u.recSeen = false
		before := 0
		for _, m := range u.modc {
			before += len(m)
		}
		m := u.dryMods(key)
		for k := range m {
			u.modc[key][k] = true
		}
		after := 0
		for _, m := range u.modc {
			after += len(m)
		}
		if !u.recSeen || after == before {
			break
		}
		if outer {
			// recompute everything that was computed on the way
			for k := range u.modc {
				if k != key && !(u.spec.funcs[k] != nil && u.spec.funcs[k].trusted) && u.touched(k, key) {
					for f := range u.modc[key] {
						u.modc[k][f] = true
					}
				}
			}
		}
	}
	delete(u.prog, key)
	return u.modc[key]
}

// touched: k can call key and key can call k (same recursion group).
func (u *Unit) touched(k, key string) bool { return u.reaches(k, key) && u.reaches(key, k) }

func (u *Unit) reaches(from, to string) bool {
	seen := map[string]bool{}
	var walk func(k string) bool
	walk = func(k string) bool {
		if k == to {
			return true
		}
		if seen[k] {
			return false
		}
		seen[k] = true
		for c := range u.calls[k] {
			if walk(c) {
				return true
			}
		}
		return false
	}
	return walk(from)
}

func (u *Unit) newFn(key string, sp *FuncSpec) *Fn {
	return &Fn{u: u, spec: sp, key: key, calls: map[string]int{}, stmts: map[string]int{}, obn: map[string]int{}, mods: map[string]bool{},
		vars: map[types.Object]*Var{}, entry: map[string]string{}, entryV: map[string]*Var{}, inlined: map[string]bool{}, called: map[string]bool{}, notes: map[string]bool{},
		lits: map[*types.Var]*ast.FuncLit{}, litFrame: map[*ast.FuncLit]*Frame{}, argLits: map[string]*ast.FuncLit{}}
}

func (u *Unit) dryMods(key string) (mods map[string]bool) {
	fi := u.fns[key]
	sp := u.spec.funcs[key]
	mods = map[string]bool{}
	if fi == nil {
		return
	}
	if sp == nil {
		sp = &FuncSpec{key: key, loops: map[int]*LoopSpec{}, auto: map[string]bool{}}
	}
	t := u.newFn(key, sp)
	t.dry = 1
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(unsupported); !ok {
				panic(x)
			}
		}
		for k := range t.mods {
			mods[k] = true
		}
		for _, m := range sp.mods {
			mods[m.field] = true
		}
		if u.calls[key] == nil {
			u.calls[key] = map[string]bool{}
		}
		for c := range t.called {
			u.calls[key][c] = true
		}
	}()
	t.body(fi)
	return
}

// body translates the body of a function: parameters, statements, exit.
func (t *Fn) body(fi *fnInfo) {
	pkg := fi.pkg
	sig := fi.obj.Type().(*types.Signature)
	fr := &Frame{pkg: pkg, info: pkg.info, key: fi.key, top: true, resTy: results(sig), direct: directDefers(fi.decl.Body)}
	t.frames = []*Frame{fr}
	t.alias = aliases(t.u.locals[fi.key], localsOf(fi))
	t.push()
	t.curPos = fi.decl.Pos()
	names := t.spec.params
	gp := goParams(fi.obj)
	if len(names) == 0 {
		names = gp
	}
	if len(names) != len(gp) {
		t.fail("contract has %d parameters, the function %d", len(names), len(gp))
	}
	var objs []*types.Var
	if r := sig.Recv(); r != nil {
		objs = append(objs, r)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		objs = append(objs, sig.Params().At(i))
	}
	t.emit("let mut h = h0;")
	t.emit("assume(h0.top >= 100);")
	t.emit("assume(h_closed(h0));")
	for i, o := range objs {
		p := "p_" + names[i]
		t.params = append(t.params, p+": "+rty(o.Type()))
		t.entry[names[i]] = p
		t.typeFact(p, rty(o.Type()), o.Type())
		if sig.Recv() != nil && i == 0 && isPtr(o.Type()) && !t.spec.nilrecv {
			t.assume(p + " != 0")
		}
		if o.Name() != "" && o.Name() != "_" {
			v := t.declare(o, o.Name(), rty(o.Type()))
			t.emit("let mut %s: %s = %s;", v.rust, v.rty, p)
		}
	}
	for _, gv := range t.spec.ghostvars {
		v := t.declare(nil, gv[0], gv[1])
		t.emit("let mut %s: %s = %s;", v.rust, v.rty, t.subst(gv[2], t.localEnv()))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		v := &Var{rust: t.fresh("res"), rty: rty(r.Type()), name: "res", obj: nil}
		if r.Name() != "" && r.Name() != "_" {
			v = t.declare(r, r.Name(), rty(r.Type()))
		}
		t.emit("let mut %s: %s = %s;", v.rust, v.rty, zeroOf(v.rty))
		fr.res = append(fr.res, v)
	}
	env := t.entryEnv()
	for _, r := range t.spec.requires {
		t.assume(t.subst(r.expr, env))
	}
	if t.spec.lockOf != "" {
		t.assume(fmt.Sprintf("h.Locker_held[%s] == 0", t.subst(t.spec.lockOf, env)))
		if t.spec.lock2 != "" {
			t.assume(fmt.Sprintf("h.Locker_held[%s] == 0", t.subst(t.spec.lock2, env)))
		}
	}
	t.point("entry")
	fl := t.block(fi.decl.Body.List)
	_ = fl
	t.curPos = fi.decl.Body.Rbrace
	if sig.Results().Len() == 0 {
		t.exit()
	} else {
		t.dryExitGhost()
	}
}

func (t *Fn) dryExitGhost() {}

type FnOut struct {
	Key     string   `json:"key"`
	Status  string   `json:"status"` // verified, trusted, missing, unsupported
	Note    string   `json:"note,omitempty"`
	Start   int      `json:"start"`
	Starts  []int    `json:"starts"`
	End     int      `json:"end"`
	Obs     []OB     `json:"obligations"`
	Tags    []string `json:"tags,omitempty"`
	Inlined []string `json:"inlined,omitempty"`
	Called  []string `json:"called,omitempty"`
	Pos     string   `json:"pos,omitempty"`
	Rust    string   `json:"rust"`
	Impl    []string `json:"implements,omitempty"`
}

type UnitOut struct {
	Unit      string   `json:"unit"`
	Functions []*FnOut `json:"functions"`
	Trusted   []string `json:"trusted"`
	Consts    []string `json:"consts"`
	Fields    []string `json:"fields"`
}

func mangle(k string) string {
	return "f_" + strings.NewReplacer(".", "_", "$", "_L", "/", "_").Replace(k)
}

func (u *Unit) translate(key string, sp *FuncSpec) (out *FnOut, code []string) {
	fi := u.fns[key]
	out = &FnOut{Key: key, Status: "verified", Rust: mangle(key), Tags: sp.tags, Impl: sp.implements}
	if fi == nil {
		out.Status = "missing"
		out.Note = "no function of this name in the source"
		return
	}
	if fi.decl.Body == nil {
		out.Status = "unsupported"
		out.Note = "no body"
		return
	}
	p := u.ld.fset.Position(fi.decl.Pos())
	out.Pos = strings.TrimPrefix(p.Filename, u.ld.root+"/") + fmt.Sprintf(":%d", p.Line)
	u.modset(key)
	t := u.newFn(key, sp)
	defer func() {
		if x := recover(); x != nil {
			us, ok := x.(unsupported)
			if !ok {
				panic(x)
			}
			out.Status = "unsupported"
			out.Note = us.msg + " at " + t.pos()
			code = nil
			out.Obs = []OB{{ID: key + "#unsupported", Fn: key, Label: "unsupported", Tags: sp.tags, Pos: t.pos()}}
		}
	}()
	t.ind = 1
	t.body(fi)
	out.Obs = t.obs
	for k := range t.inlined {
		out.Inlined = append(out.Inlined, k)
	}
	for k := range t.called {
		out.Called = append(out.Called, k)
	}
	sort.Strings(out.Inlined)
	sort.Strings(out.Called)
	rl := sp.rlimit
	if rl == "" {
		rl = "40"
	}
	ps := append([]string{"h0: Heap"}, t.params...)
	ps = append(ps, t.havocs...)
	bufs := [][]string{t.buf}
	if sp.split > 0 {
		bufs = pieces(t.buf)
	}
	for i, b := range bufs {
		nm := mangle(key)
		if i > 0 {
			nm += fmt.Sprintf("__%d", i+1)
		}
		code = append(code, "#[verifier::spinoff_prover]", "#[verifier::rlimit("+rl+")]")
		code = append(code, fmt.Sprintf("proof fn %s(%s)", nm, strings.Join(ps, ", ")), "{")
		for _, x := range sp.hide {
			code = append(code, "  hide("+x+");")
		}
		code = append(code, b...)
		code = append(code, "}")
		if i == len(bufs)-1 {
			code = append(code, "")
		}
	}
	return
}

var fieldRefRe = regexp.MustCompile(`\.([A-Za-z]\w*_\w+)\b`)

func (u *Unit) registerText(s string) {
	for _, m := range fieldRefRe.FindAllStringSubmatch(s, -1) {
		if _, ok := u.fieldTy[m[1]]; ok {
			continue
		}
		if ty := u.computeField(m[1]); ty != "" {
			u.fieldTy[m[1]] = ty
		}
	}
}

func (u *Unit) expandImplements() error {
	for _, k := range u.spec.order {
		f := u.spec.funcs[k]
		for _, ik := range f.implements {
			i := u.spec.funcs[ik]
			if i == nil {
				return fmt.Errorf("%s implements unknown %s", k, ik)
			}
			if len(i.params) != len(f.params) {
				return fmt.Errorf("%s implements %s: parameter lists differ", k, ik)
			}
			ren := map[string]string{}
			for n, p := range i.params {
				ren[p] = f.params[n]
			}
			for n, r := range i.results {
				if n < len(f.results) {
					ren[r] = f.results[n]
				}
			}
			if len(i.results) != len(f.results) {
				return fmt.Errorf("%s implements %s: result lists differ", k, ik)
			}
			t := &Fn{}
			short := ik[strings.LastIndex(ik, ".")+1:]
			for n, c := range i.requires {
				c.expr = t.subst(c.expr, ren)
				l := c.label
				if l == "" {
					l = fmt.Sprint(n + 1)
				}
				c.label = "ifc_" + short + "_" + l
				f.requires = append(f.requires, c)
			}
			for n, c := range i.ensures {
				c.expr = t.subst(c.expr, ren)
				l := c.label
				if l == "" {
					l = fmt.Sprint(n + 1)
				}
				c.label = "ifc_" + short + "_" + l
				if len(c.tags) == 0 {
					c.tags = i.tags
				}
				f.ensures = append(f.ensures, c)
			}
			for _, p := range i.panics {
				f.panics = append(f.panics, t.subst(p, ren))
			}
			for _, p := range i.maypanic {
				f.maypanic = append(f.maypanic, t.subst(p, ren))
			}
		}
	}
	return nil
}

func (u *Unit) generate(prelude string) (string, *UnitOut, error) {
	if err := u.expandImplements(); err != nil {
		return "", nil, err
	}
	out := &UnitOut{Unit: u.spec.name}
	pkgset := map[string]bool{}
	for _, p := range u.spec.pkgs {
		pkgset[p] = true
	}
	var texts []string
	for _, f := range u.spec.libs {
		b, err := os.ReadFile(f)
		if err != nil {
			return "", nil, err
		}
		texts = append(texts, string(b))
	}
	for _, t := range texts {
		u.registerText(t)
	}
	for _, f := range u.spec.fields {
		u.field(strings.ReplaceAll(f, ".", "_"))
	}
	var body []string
	want := map[string]bool{}
	for _, v := range u.spec.verify {
		want[v] = true
	}
	var libNames []string
	for _, k := range u.spec.order {
		sp := u.spec.funcs[k]
		for _, c := range append(append([]Clause{}, sp.requires...), sp.ensures...) {
			u.registerText(c.expr)
		}
		for _, h := range sp.hints {
			u.registerText(h.code)
		}
	}
	// a first pass finds the dynamic types in use
	for _, k := range u.spec.order {
		sp := u.spec.funcs[k]
		if fi := u.fns[k]; fi != nil && !sp.inline && !sp.trusted && (want[k] || len(u.spec.verify) == 0 && pkgset[fi.pkg.rel]) {
			u.translate(k, sp)
		}
	}
	for _, k := range u.spec.order {
		sp := u.spec.funcs[k]
		if sp.inline {
			continue
		}
		if sp.trusted {
			continue
		}
		fi := u.fns[k]
		if len(u.spec.verify) > 0 {
			if !want[k] {
				continue
			}
		} else if fi == nil || !pkgset[fi.pkg.rel] {
			if fi == nil && sp.own {
				out.Functions = append(out.Functions, &FnOut{Key: k, Status: "missing", Note: "no function of this name in the source", Tags: sp.tags,
					Obs: []OB{}})
			}
			continue
		}
		fo, code := u.translate(k, sp)
		out.Functions = append(out.Functions, fo)
		for _, l := range code {
			u.registerText(l)
		}
		body = append(body, code...)
	}
	_ = libNames
	var sb strings.Builder
	for _, b := range u.spec.broadcast {
		prelude = strings.Replace(prelude, "broadcast use {", "broadcast use {"+b+", ", 1)
	}
	sb.WriteString(prelude)
	var fs []string
	for f := range u.fieldTy {
		if f != "top" {
			fs = append(fs, f)
		}
	}
	sort.Strings(fs)
	out.Fields = fs
	sb.WriteString("\npub struct Heap {\n  pub top: int,\n")
	for _, f := range fs {
		fmt.Fprintf(&sb, "  pub %s: %s,\n", f, u.fieldTy[f])
	}
	sb.WriteString("}\n")
	sb.WriteString("pub open spec fn old_ref(h: Heap, r: int) -> bool { -h.top < r && r < h.top }\n")
	sb.WriteString("pub open spec fn hsame(h0: Heap, h: Heap) -> bool {\n  true\n")
	for _, f := range fs {
		if strings.HasPrefix(f, "Locker_") || strings.HasPrefix(f, "Visit_") {
			continue
		}
		if u.isMapField(f) {
			fmt.Fprintf(&sb, "  && (forall|rr: int| #![trigger h.%s[rr]] old_ref(h0, rr) ==> h.%s[rr] == h0.%s[rr])\n", f, f, f)
		} else {
			fmt.Fprintf(&sb, "  && h.%s == h0.%s\n", f, f)
		}
	}
	sb.WriteString("}\n")
	// every reference stored in the heap is to an object that exists
	sb.WriteString("pub open spec fn h_closed(h: Heap) -> bool {\n  true\n")
	for _, f := range fs {
		if c := u.closed("h", f); c != "" {
			sb.WriteString("  && (" + c + ")\n")
		}
	}
	sb.WriteString("}\n")
	// dynamic types
	for i, d := range u.dynOrder {
		fmt.Fprintf(&sb, "pub open spec fn dyn_%s() -> int { %dint }\n", d, i+1)
	}
	for i, d := range u.ifOrder {
		fmt.Fprintf(&sb, "pub open spec fn if_%s() -> int { %dint }\n", d, i+1)
	}
	sb.WriteString("pub uninterp spec fn implements_x(d: int, i: int) -> bool;\n")
	sb.WriteString("pub open spec fn implements(d: int, i: int) -> bool {\n")
	for di, d := range u.dynOrder {
		for ii, in := range u.ifOrder {
			fmt.Fprintf(&sb, "  if d == %d && i == %d { %v } else\n", di+1, ii+1, implementsByName(u.dynUsed[d], u.ifaces[in]))
		}
	}
	// a type with the methods of a larger interface has those of a smaller one
	for bi, b := range u.ifOrder {
		sub := fmt.Sprintf("implements_x(d, %d)", bi+1)
		for ai, a := range u.ifOrder {
			if ai != bi && ifaceWithin(u.ifaces[b], u.ifaces[a]) {
				sub += fmt.Sprintf(" || implements_x(d, %d)", ai+1)
			}
		}
		fmt.Fprintf(&sb, "  if i == %d { %s } else\n", bi+1, sub)
	}
	sb.WriteString("  { implements_x(d, i) }\n}\n")
	for _, g := range u.spec.globals {
		for _, p := range u.ld.pkgs {
			w := strings.SplitN(g, ".", 2)
			if p.tpkg.Name() == w[0] {
				switch v := p.tpkg.Scope().Lookup(w[1]).(type) {
				case *types.Var:
					u.globalConst(v)
				case *types.Const:
					r := rty(types.Default(v.Type()))
					u.consts = append(u.consts, fmt.Sprintf("pub open spec fn gc_%s_%s() -> %s { %s }", w[0], w[1], r, (&Fn{u: u}).lit(v.Val(), types.Default(v.Type()))))
				}
			}
		}
	}
	for _, k := range u.spec.fnvals {
		fi, sp := u.fns[k], u.spec.funcs[k]
		if fi == nil || sp == nil || len(sp.results) != 1 {
			return "", nil, fmt.Errorf("fnval %s: no function with a contract", k)
		}
		sig := fi.obj.Type().(*types.Signature)
		id := strings.ReplaceAll(k, ".", "_")
		var ps, vs, us []string
		for i, n := range sp.params {
			r := rty(sig.Params().At(i).Type())
			ps = append(ps, n+": "+r)
			vs = append(vs, n+": Val")
			us = append(us, conv(n, "Val", r))
		}
		es := []string{"true"}
		for _, c := range sp.ensures {
			es = append(es, "("+c.expr+")")
		}
		fv := u.funcValue(fi.obj)
		call := fmt.Sprintf("cmpv(%s, %s)", fv, strings.Join(sp.params, ", "))
		u.consts = append(u.consts, fmt.Sprintf("pub open spec fn fvs_%s(%s, %s: int) -> bool { %s }", id, strings.Join(ps, ", "), sp.results[0], oneLine(strings.Join(es, " && "))),
			fmt.Sprintf("pub axiom fn ax_fv_%s() ensures forall|%s| #![trigger %s] fvs_%s(%s, %s);", id, strings.Join(vs, ", "), call, id, strings.Join(us, ", "), call))
	}
	sort.Strings(u.consts)
	for _, c := range u.consts {
		sb.WriteString(c + "\n")
	}
	out.Consts = u.consts
	for i, t := range texts {
		fmt.Fprintf(&sb, "// ---- lib %s\n", filepath.Base(u.spec.libs[i]))
		sb.WriteString(t)
		sb.WriteString("\n")
	}
	for _, l := range body {
		sb.WriteString(l + "\n")
	}
	sb.WriteString("} // verus!\nfn main() {}\n")
	text := sb.String()
	// line numbers
	lines := strings.Split(text, "\n")
	at := map[string]int{}
	for i, l := range lines {
		if j := strings.Index(l, "/*OB "); j >= 0 {
			at[strings.TrimSuffix(strings.TrimSpace(l[j+5:]), "*/")] = i + 1
		}
	}
	starts := map[string]int{}
	for i, l := range lines {
		if strings.HasPrefix(l, "proof fn f_") {
			starts[l[9:strings.Index(l, "(")]] = i + 1
		}
	}
	for _, f := range out.Functions {
		for i := range f.Obs {
			f.Obs[i].Line = at[f.Obs[i].ID]
		}
		f.Start = starts[f.Rust]
		for i, nm := 1, f.Rust; starts[nm] > 0; nm = fmt.Sprintf("%s__%d", f.Rust, i) {
			f.Starts = append(f.Starts, starts[nm])
			for j := starts[nm]; j < len(lines); j++ {
				if lines[j] == "}" {
					f.End = j + 1
					break
				}
			}
			i++
		}
	}
	tr := map[string]bool{}
	for k := range u.called {
		sp := u.spec.funcs[k]
		if sp == nil {
			continue
		}
		if sp.functype {
			tr["function-type contract "+k] = true
		} else if sp.iface {
			tr["interface contract "+k] = true
		} else if sp.trusted {
			tr["trusted contract "+k] = true
		} else if !sp.own && sp.from != "" {
			tr["contract of "+k+", proved in unit "+sp.from] = true
		}
	}
	for k := range tr {
		out.Trusted = append(out.Trusted, k)
	}
	sort.Strings(out.Trusted)
	return text, out, nil
}

func implementsByName(d, i *types.Named) bool {
	it := i.Underlying().(*types.Interface)
	ms := types.NewMethodSet(types.NewPointer(d))
	for k := 0; k < it.NumMethods(); k++ {
		m := it.Method(k)
		if ms.Lookup(m.Pkg(), m.Name()) == nil {
			return false
		}
	}
	return true
}

// ifaceWithin: every method of b is a method of a (interfaces of one package).
func ifaceWithin(b, a *types.Named) bool {
	if a.Obj().Pkg() != b.Obj().Pkg() {
		return false
	}
	bi, ok1 := b.Underlying().(*types.Interface)
	ai, ok2 := a.Underlying().(*types.Interface)
	if !ok1 || !ok2 {
		return false
	}
	for k := 0; k < bi.NumMethods(); k++ {
		m := bi.Method(k)
		found := false
		for j := 0; j < ai.NumMethods(); j++ {
			if ai.Method(j).Name() == m.Name() {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}
