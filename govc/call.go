package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func (t *Fn) callStmt(c *ast.CallExpr) flags {
	t.call(c)
	return nil
}

func (t *Fn) call(c *ast.CallExpr) ([]string, []types.Type) {
	info := t.fr().info
	fun := unparen(c.Fun)
	if tv, ok := info.Types[fun]; ok && tv.IsType() {
		return []string{t.conversion(c, tv.Type)}, []types.Type{tv.Type}
	}
	// strip explicit instantiation
	base := fun
	switch x := base.(type) {
	case *ast.IndexExpr:
		if _, ok := t.typ(x.X).(*types.Signature); ok {
			base = unparen(x.X)
		}
	case *ast.IndexListExpr:
		base = unparen(x.X)
	}
	switch f := base.(type) {
	case *ast.Ident:
		switch o := info.ObjectOf(f).(type) {
		case *types.Builtin:
			return t.builtin(o.Name(), c)
		case *types.Func:
			return t.static(o, "", c)
		case *types.Var:
			if lit := t.lits[o]; lit != nil {
				return t.callLit(lit, c)
			}
			return t.dynamic(f.Name, t.tmp(t.expr(f)), t.typ(f), c)
		}
	case *ast.SelectorExpr:
		sel := info.Selections[f]
		if sel == nil {
			switch o := info.Uses[f.Sel].(type) {
			case *types.Func:
				return t.static(o, "", c)
			case *types.Var:
				return t.dynamic(f.Sel.Name, t.tmp(t.expr(f)), t.typ(f), c)
			}
			t.fail("call of %s", f.Sel.Name)
		}
		if sel.Kind() == types.FieldVal {
			n, _ := structOf(derefT(sel.Recv()))
			nm := f.Sel.Name
			if n != nil {
				nm = n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + nm
			}
			return t.dynamic(nm, t.tmp(t.expr(f)), t.typ(f), c)
		}
		if sel.Kind() != types.MethodVal {
			t.fail("method expression")
		}
		m := sel.Obj().(*types.Func)
		recv := t.receiver(f, sel, m)
		return t.static(m, recv, c)
	case *ast.FuncLit:
		return t.callLit(f, c)
	default:
		return t.dynamic("", t.tmp(t.expr(fun)), t.typ(fun), c)
	}
	t.fail("call %T", fun)
	return nil, nil
}

func derefT(ty types.Type) types.Type {
	if p, ok := types.Unalias(ty).(*types.Pointer); ok {
		return p.Elem()
	}
	return ty
}

// receiver evaluates the receiver of a method call, walking embedded fields.
func (t *Fn) receiver(f *ast.SelectorExpr, sel *types.Selection, m *types.Func) string {
	var base string
	cur := sel.Recv()
	idx := sel.Index()
	if isStruct(cur) {
		base = t.tmp(t.addrOf(f.X))
	} else {
		base = t.stable(t.expr(f.X))
	}
	for k := 0; k < len(idx)-1; k++ {
		i := idx[k]
		if isPtr(cur) {
			t.check("nil", base+" != 0")
			cur = deref(cur)
		}
		n, st := structOf(cur)
		fl := st.Field(i)
		cur = cur.Underlying().(*types.Struct).Field(i).Type()
		if isStruct(fl.Type()) {
			base = t.tmp(subref(i, base))
		} else {
			base = t.loadField(base, t.fieldName(n, fl), fl, cur)
		}
	}
	if isIface(cur) {
		t.check("nil_interface", base+" != 0")
	} else if isPtr(cur) {
		if r := m.Type().(*types.Signature).Recv(); r != nil && !isPtr(r.Type()) {
			t.check("nil", base+" != 0")
		}
	}
	return base
}

func (t *Fn) args(c *ast.CallExpr, sig, isig *types.Signature) []string {
	// sig: origin signature (representation expected), isig: instantiated signature
	var out []string
	np := isig.Params().Len()
	if len(c.Args) == 1 && np > 1 && !isig.Variadic() {
		vs, tys := t.multi(c.Args[0])
		for i, v := range vs {
			w := conv(v, rty(tys[i]), rty(isig.Params().At(i).Type()))
			out = append(out, t.stable(conv(w, rty(isig.Params().At(i).Type()), rty(sig.Params().At(i).Type()))))
		}
		return out
	}
	for i := 0; i < np; i++ {
		pt := isig.Params().At(i).Type()
		ot := sig.Params().At(i).Type()
		if isig.Variadic() && i == np-1 && !c.Ellipsis.IsValid() {
			et := pt.Underlying().(*types.Slice).Elem()
			oet := ot.Underlying().(*types.Slice).Elem()
			var vals []string
			for _, a := range c.Args[i:] {
				vals = append(vals, t.stable(conv(t.exprTo(a, et), rty(et), rty(oet))))
			}
			if len(vals) == 0 {
				out = append(out, "nil_slice()")
				continue
			}
			n := fmt.Sprint(len(vals)) + "int"
			s := t.makeSlice(oet, n, n)
			for k, v := range vals {
				t.storeElem(s, fmt.Sprint(k)+"int", v, oet)
			}
			out = append(out, s)
			continue
		}
		if _, isLit := unparen(c.Args[i]).(*ast.FuncLit); isLit {
			if t.argLits == nil {
				t.argLits = map[string]*ast.FuncLit{}
			}
			v := t.expr(c.Args[i])
			t.argLits[v] = unparen(c.Args[i]).(*ast.FuncLit)
			out = append(out, v)
			continue
		}
		if u, ok := unparen(c.Args[i]).(*ast.UnaryExpr); ok && u.Op == token.AND && t.extCall && !isStruct(t.typ(u.X)) {
			// a pointer to a scalar given to an external function: its contract's parameter stands for
			// the value stored there on return
			sc := t.def(t.typ(u.X))
			v := t.havoc(rty(sc))
			t.outs = append(t.outs, outArg{u.X, v})
			out = append(out, t.stable(conv(v, rty(sc), rty(ot))))
			continue
		}
		v := t.exprTo(c.Args[i], pt)
		if isStruct(pt) {
			v = t.copyStruct(t.tmp(v), pt, c.Args[i])
		}
		if rty(pt) == "Slice" && rty(ot) == "Slice" {
			pe, oe := pt.Underlying().(*types.Slice).Elem(), ot.Underlying()
			if os, ok := oe.(*types.Slice); ok && rty(pe) != rty(os.Elem()) {
				t.fail("generic slice of %v", pe)
			}
		}
		out = append(out, t.stable(conv(v, rty(pt), rty(ot))))
	}
	return out
}

type outArg struct {
	target ast.Expr
	val    string
}

func results(sig *types.Signature) []types.Type {
	var r []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, sig.Results().At(i).Type())
	}
	return r
}

// static handles calls of declared functions, methods and interface methods.
func (t *Fn) static(m *types.Func, recv string, c *ast.CallExpr) ([]string, []types.Type) {
	o := m.Origin()
	sig := o.Type().(*types.Signature)
	isig := sig
	if s, ok := t.typ(c.Fun).(*types.Signature); ok {
		isig = s
	}
	key := funcKey(m)
	sp := t.u.spec.funcs[key]
	t.outs = nil
	saveExt := t.extCall
	t.extCall = sp != nil && sp.extern
	args := t.args(c, sig, isig)
	t.extCall = saveExt
	pend := t.outs
	t.outs = nil
	if recv != "" {
		args = append([]string{recv}, args...)
	}
	var outs []string
	if sp != nil && !sp.inline {
		outs = t.contractCall(sp, key, args, sig, o)
		for _, p := range pend {
			t.lval(p.target).store(p.val)
		}
	} else {
		fi := t.u.fns[key]
		if fi == nil || fi.decl.Body == nil {
			t.fail("call of %s: no contract and no body", key)
		}
		outs = t.inline(fi.pkg, key, fi.decl.Recv, fi.decl.Type, fi.decl.Body, sig, args)
	}
	rts := results(sig)
	irts := results(isig)
	for i := range outs {
		outs[i] = t.tmp(conv(outs[i], rty(rts[i]), rty(irts[i])))
	}
	return outs, irts
}

// callLit inlines a function literal.
func (t *Fn) callLit(lit *ast.FuncLit, c *ast.CallExpr) ([]string, []types.Type) {
	pkg := t.fr().pkg
	if f := t.litFrame[lit]; f != nil {
		pkg = f.pkg
	}
	sig := pkg.info.TypeOf(lit).Underlying().(*types.Signature)
	args := t.args(c, sig, sig)
	outs := t.inline(pkg, fmt.Sprintf("lit@%d", lit.Pos()), nil, lit.Type, lit.Body, sig, args)
	return outs, results(sig)
}

func directDefers(b *ast.BlockStmt) map[*ast.DeferStmt]bool {
	m := map[*ast.DeferStmt]bool{}
	for _, s := range b.List {
		if d, ok := s.(*ast.DeferStmt); ok {
			m[d] = true
		}
	}
	return m
}

func (t *Fn) inline(pkg *Pkg, key string, recv *ast.FieldList, ft *ast.FuncType, body *ast.BlockStmt, sig *types.Signature, args []string) []string {
	for _, f := range t.frames {
		if f.key == key {
			t.fail("recursive function %s has no contract", key)
		}
	}
	if len(t.frames) > 10 {
		t.fail("inlining too deep at %s", key)
	}
	if !strings.HasPrefix(key, "lit@") {
		t.inlined[key] = true
		t.u.inlined[key] = true
	}
	savePos := t.curPos
	defer func() { t.curPos = savePos }()
	t.push()
	defer t.pop()
	fr := &Frame{pkg: pkg, info: pkg.info, key: key, flag: t.fresh("ret"), direct: directDefers(body)}
	fr.resTy = results(sig)
	k := 0
	bind := func(fl *ast.FieldList, ty func(int) types.Type) {
		if fl == nil {
			return
		}
		for _, f := range fl.List {
			if len(f.Names) == 0 {
				k++
				continue
			}
			for _, nm := range f.Names {
				o := pkg.info.Defs[nm]
				if nm.Name != "_" && o != nil {
					v := t.declare(o, nm.Name, rty(o.Type()))
					t.emit("let mut %s: %s = %s;", v.rust, v.rty, args[k])
					if lit := t.argLits[args[k]]; lit != nil {
						t.lits[o.(*types.Var)] = lit
						t.litFrame[lit] = t.fr()
					}
				}
				k++
			}
		}
	}
	bind(recv, nil)
	bind(ft.Params, nil)
	if ft.Results != nil {
		i := 0
		for _, f := range ft.Results.List {
			n := len(f.Names)
			if n == 0 {
				rt := fr.resTy[i]
				v := &Var{rust: t.fresh("res"), rty: rty(rt), name: "res"}
				t.emit("let mut %s: %s = %s;", v.rust, v.rty, zeroOf(v.rty))
				fr.res = append(fr.res, v)
				i++
				continue
			}
			for _, nm := range f.Names {
				o := pkg.info.Defs[nm]
				v := t.declare(o, nm.Name, rty(o.Type()))
				t.emit("let mut %s: %s = %s;", v.rust, v.rty, zeroOf(v.rty))
				fr.res = append(fr.res, v)
				i++
			}
		}
	}
	t.emit("let mut %s = false;", fr.flag)
	t.frames = append(t.frames, fr)
	t.block(body.List)
	t.runDefers()
	t.frames = t.frames[:len(t.frames)-1]
	var outs []string
	for _, v := range fr.res {
		outs = append(outs, t.stable(v.rust))
	}
	return outs
}

// dynamic handles calls of function values.
func (t *Fn) dynamic(name, f string, ty types.Type, c *ast.CallExpr) ([]string, []types.Type) {
	isig, ok := ty.Underlying().(*types.Signature)
	if !ok {
		t.fail("call of %v", ty)
	}
	n, _ := types.Unalias(ty).(*types.Named)
	sig := isig
	tn := ""
	if n != nil {
		tn = n.Obj().Pkg().Name() + "." + n.Obj().Name()
		sig = n.Origin().Underlying().(*types.Signature)
	}
	shape := "func"
	for i := 0; i < isig.Params().Len(); i++ {
		shape += "." + typeName(isig.Params().At(i).Type())
	}
	for _, r := range results(isig) {
		shape += "." + typeName(r)
	}
	for _, k := range []string{tn, t.fr().key + "." + name, t.key + "." + name, shape} {
		if k == "" {
			continue
		}
		if sp := t.u.spec.funcs[k]; sp != nil && sp.functype {
			args := t.args(c, sig, isig)
			t.check("nil_func", f+" != 0")
			outs := t.contractCall(sp, k, append([]string{f}, args...), sig, nil)
			rts, irts := results(sig), results(isig)
			for i := range outs {
				outs[i] = t.tmp(conv(outs[i], rty(rts[i]), rty(irts[i])))
			}
			return outs, irts
		}
	}
	// pure function values
	var pt []string
	for i := 0; i < isig.Params().Len(); i++ {
		pt = append(pt, rty(isig.Params().At(i).Type()))
	}
	var rt []string
	for _, r := range results(isig) {
		rt = append(rt, rty(r))
	}
	args := t.args(c, isig, isig)
	t.check("nil_func", f+" != 0")
	t.mayPanic()
	switch {
	case tn == "visitor.Visitor" || tn == "visitor.KvVisitor":
		k, v := "zero_val()", ""
		if len(args) == 2 {
			k, v = conv(args[0], pt[0], "Val"), conv(args[1], pt[1], "Val")
		} else {
			v = conv(args[0], pt[0], "Val")
		}
		r := t.fresh("t")
		t.modify("Visit_trace")
		t.emit("let %s = visr(%s, h.Visit_trace, %s, %s);", r, f, k, v)
		t.emit("h = Heap{Visit_trace: h.Visit_trace.push((%s, %s)), ..h};", k, v)
		return []string{r}, results(isig)
	case len(pt) == 2 && len(rt) == 1 && rt[0] == "int":
		return []string{t.tmp(fmt.Sprintf("cmpv(%s, %s, %s)", f, conv(args[0], pt[0], "Val"), conv(args[1], pt[1], "Val")))}, results(isig)
	case len(pt) == 1 && len(rt) == 1 && rt[0] == "bool":
		return []string{t.tmp(fmt.Sprintf("predv(%s, %s)", f, conv(args[0], pt[0], "Val")))}, results(isig)
	}
	t.fail("call of function value %s of type %v", name, ty)
	return nil, nil
}

func (t *Fn) contractCall(sp *FuncSpec, key string, args []string, sig *types.Signature, fn *types.Func) []string {
	short := key[strings.LastIndex(key, ".")+1:]
	t.calls[short]++
	pt := fmt.Sprintf("call:%s#%d", short, t.calls[short])
	t.called[key] = true
	t.u.called[key] = true
	names := sp.params
	if len(names) == 0 && fn != nil {
		names = goParams(fn)
	}
	if len(names) != len(args) {
		t.fail("contract of %s has %d parameters, the call %d", key, len(names), len(args))
	}
	// only-visited function literals
	if sp.visits != "" {
		for i, a := range args {
			if lit := t.argLits[a]; lit != nil {
				env := map[string]string{}
				for i, n := range names {
					env[n] = args[i]
				}
				t.pointEnv(pt+".before", env)
				return t.visitLoop(sp, key, names, args, i, lit, sig)
			}
		}
	}
	env := map[string]string{}
	for i, n := range names {
		env[n] = args[i]
	}
	t.pointEnv(pt+".before", env)
	t.preCall(sp, key, short, env)
	if sp.functype || sp.iface && !sp.nopanic && !strings.Contains(key, "Locker.") {
		t.mayPanic()
	} else if t.dry == 0 && t.spec.lockOf != "" && t.u.callsBack(key, sp) {
		t.mayPanic()
	}
	return t.postCall(sp, key, env, sig, pt)
}

func (t *Fn) preCall(sp *FuncSpec, key, short string, env map[string]string) {
	if t.dry > 0 {
		return
	}
	for i, r := range sp.requires {
		l := r.label
		if l == "" {
			l = fmt.Sprint(i + 1)
		}
		t.ob("call_"+short+"_"+l, r.tags, t.subst(r.expr, env))
	}
	if sp.lockOf != "" {
		t.ob("call_"+short+"_lock_free", []string{"C23"}, fmt.Sprintf("h.Locker_held[%s] == 0", t.subst(sp.lockOf, env)))
		if sp.lock2 != "" {
			t.ob("call_"+short+"_lock_free", []string{"C23"}, fmt.Sprintf("h.Locker_held[%s] == 0", t.subst(sp.lock2, env)))
		}
	}
	for _, p := range sp.panics {
		t.check("call_"+short+"_panics", "!("+t.subst(p, env)+")")
	}
	for _, p := range sp.maypanic {
		t.check("call_"+short+"_panics", "!("+t.subst(p, env)+")")
	}
	if fi := t.u.fns[key]; fi != nil && !sp.nilrecv {
		if r := fi.obj.Type().(*types.Signature).Recv(); r != nil && isPtr(r.Type()) {
			nm := sp.params
			if len(nm) == 0 {
				nm = goParams(fi.obj)
			}
			t.ob("call_"+short+"_nil_receiver", nil, env[nm[0]]+" != 0")
		}
	}
	if sp.decreases != "" && t.spec.decreases != "" && t.u.reaches(key, t.key) {
		e := t.subst(sp.decreases, env)
		ee := t.entryEnv()
		ee["h"] = "h0"
		own := t.subst(t.spec.decreases, ee)
		t.ob("call_"+short+"_terminates", nil, fmt.Sprintf("0 <= %s < %s", paren(e), paren(own)))
	} else if !sp.trusted && t.u.reaches(key, t.key) && !t.spec.noterm {
		t.ob("call_"+short+"_terminates", nil, "false /* recursion without measure */")
	}
}

func paren(s string) string { return "(" + s + ")" }

func (t *Fn) postCall(sp *FuncSpec, key string, env map[string]string, sig *types.Signature, pt string) []string {
	mods := t.u.modset(key)
	var ms []string
	for m := range mods {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	allocs := mods["top"]
	hp := t.fresh("hp")
	t.emit("let %s = h;", hp)
	henv := map[string]string{}
	for k, v := range env {
		henv[k] = v
	}
	henv["h"] = hp
	henv["h0"] = hp
	if t.spec.lockOf != "" && (sp.lockOf == "" || t.spec.inner) && t.dry == 0 && !strings.Contains(key, "Locker.") {
		wr := false
		for i := range sp.mods {
			m := &sp.mods[i]
			onlyFresh := !m.all && len(m.refs) > 0
			for _, r := range m.refs {
				if r != "fresh" {
					onlyFresh = false
				}
			}
			if !strings.HasPrefix(m.field, "Visit_") && !strings.HasPrefix(m.field, "Locker_") && !strings.HasPrefix(m.field, "Options_") && !onlyFresh {
				wr = true
			}
		}
		l := t.subst(t.spec.lockOf, t.entryEnv())
		if wr && !sp.lockfree {
			c := fmt.Sprintf("h.Locker_held[%s] == 2", l)
			if sp.ownstate && len(sp.params) > 0 {
				c += fmt.Sprintf(" || %s >= h0.top", env[sp.params[0]])
			}
			t.ob("lock_write_call", []string{"C23"}, c)
		} else if !sp.lockfree && t.u.guardedCallee(key) {
			t.ob("lock_read_call", []string{"C23"}, fmt.Sprintf("h.Locker_held[%s] >= 1", l))
		}
	}
	var parts, post []string
	for _, f := range ms {
		t.modify(f)
		if f == "top" {
			parts = append(parts, "top: "+t.havoc("int"))
			continue
		}
		var m *Mod
		for i := range sp.mods {
			if sp.mods[i].field == f {
				m = &sp.mods[i]
			}
		}
		if !t.u.isMapField(f) {
			if m != nil {
				parts = append(parts, f+": "+t.havoc(t.u.fieldType(f)))
			}
			continue
		}
		var refs []string
		if m != nil {
			for _, r := range m.refs {
				if r != "fresh" {
					refs = append(refs, t.subst(r, henv))
				}
			}
		}
		switch {
		case m != nil && m.all:
			parts = append(parts, f+": "+t.havoc(t.u.fieldType(f)))
		case !allocs:
			if len(refs) == 0 {
				continue
			}
			e := hp + "." + f
			for _, r := range refs {
				rr := t.tmp(oneLine(r))
				e += fmt.Sprintf(".insert(%s, %s)", rr, t.havoc(t.u.elemType(f)))
			}
			parts = append(parts, f+": "+e)
		default:
			parts = append(parts, f+": "+t.havoc(t.u.fieldType(f)))
			cond := fmt.Sprintf("old_ref(%s, rr)", hp)
			for _, r := range refs {
				cond += " && rr != (" + oneLine(r) + ")"
			}
			post = append(post, fmt.Sprintf("forall|rr: int| #![trigger h.%s[rr]] %s ==> h.%s[rr] == %s.%s[rr]", f, cond, f, hp, f))
		}
	}
	if len(parts) > 0 {
		t.emit("h = Heap{%s, ..h};", strings.Join(parts, ", "))
	}
	if allocs {
		t.assume(hp + ".top <= h.top")
	}
	for _, p := range post {
		t.assume(p)
	}
	t.closedFacts(ms)
	rts := results(sig)
	var outs []string
	for i, rt := range rts {
		v := t.havoc(rty(rt))
		outs = append(outs, v)
		nm := "r"
		if i < len(sp.results) {
			nm = sp.results[i]
		} else if len(rts) > 1 {
			nm = fmt.Sprintf("r%d", i)
		}
		env[nm] = v
		t.typeFact(v, rty(rt), rt)
	}
	env["h0"] = hp
	if sp.lockOf != "" {
		l := t.subst(sp.lockOf, henv)
		t.assume(fmt.Sprintf("h.Locker_held[%s] == 0 && h.Locker_sections[%s] == %s.Locker_sections[%s] + %s", l, l, hp, l, t.sections(sp, henv)))
		if sp.lock2 != "" {
			t.assume(fmt.Sprintf("h.Locker_held[%s] == 0", t.subst(sp.lock2, henv)))
		}
	}
	for _, e := range sp.ensures {
		t.assume(t.subst(e.expr, env))
	}
	t.pointEnv(pt+".after", env)
	return outs
}

// pointEnv runs the hints of a call point; ret, hp and the callee's names prefixed with c_ are available.
func (t *Fn) pointEnv(p string, env map[string]string) {
	pts := []string{p}
	if strings.Contains(p, "#1.") {
		pts = append(pts, strings.Replace(p, "#1.", ".", 1))
	}
	any := strings.Replace(p, p[strings.Index(p, "#"):strings.LastIndex(p, ".")], "*", 1)
	pts = append(pts, any)
	for _, q := range pts {
		hints := func(pt string) {
			for _, h := range t.spec.hints {
				if h.point == pt {
					e := t.localEnv()
					for k, v := range env {
						if k == "h" || k == "h0" {
							continue
						}
						e["c_"+k] = v
					}
					if hp, ok := env["h0"]; ok {
						e["hp"] = hp
					}
					t.emit("%s", oneLine(t.subst(h.code, e)))
				}
			}
		}
		hints(q)
		for _, g := range t.spec.ghosts {
			if g.point == q {
				t.ghostStmt(g, env)
			}
		}
		hints(q + "!")
	}
}

// visitLoop models callee(.., func literal, ..) as a loop over the callee's visiting sequence.
func (t *Fn) visitLoop(sp *FuncSpec, key string, names, args []string, li int, lit *ast.FuncLit, sig *types.Signature) []string {
	env := map[string]string{}
	for i, n := range names {
		env[n] = args[i]
	}
	short := key[strings.LastIndex(key, ".")+1:]
	var reqs []string
	for _, r := range sp.requires {
		reqs = append(reqs, t.subst(r.expr, env))
	}
	t.preCall(sp, key, short, env)
	vs := t.fresh("t")
	sq := t.subst(sp.visits, env)
	t.emit("let %s = %s;", vs, oneLine(sq))
	// the literal runs while the callee holds its lock for reading
	if sp.lockOf != "" && t.dry == 0 {
		l := t.subst(sp.lockOf, env)
		t.emit("h = Heap{Locker_held: h.Locker_held.insert(%s, 1), Locker_sections: h.Locker_sections.insert(%s, h.Locker_sections[%s] + 1), ..h};", l, l, l)
	}
	t.push()
	defer t.pop()
	iv := t.declare(nil, "vi", "int")
	t.emit("let mut %s: int = 0;", iv.rust)
	vsv := t.declare(nil, "vs", "Seq")
	vsv.rust = vs
	lsig := t.typ(lit).Underlying().(*types.Signature)
	lfr := t.fr()
	c := &cutLoop{
		cond: func() string { return fmt.Sprintf("%s < %s.len()", iv.rust, vs) },
		auto: append([]string{fmt.Sprintf("0 <= %s && %s <= %s.len()", iv.rust, iv.rust, vs), fmt.Sprintf("%s == %s", sq, vs)}, reqs...),
		dec:  vs + ".len() - " + iv.rust,
		post: func() { t.emit("%s = %s + 1;", iv.rust, iv.rust); t.assign(iv) },
	}
	c.bodyF = func() flags {
		lc := lfr.loops[len(lfr.loops)-1]
		var as []string
		if lsig.Params().Len() == 2 {
			as = []string{conv(vs+"["+iv.rust+"].0", "Val", rty(lsig.Params().At(0).Type())), conv(vs+"["+iv.rust+"].1", "Val", rty(lsig.Params().At(1).Type()))}
		} else {
			as = []string{conv(vs+"["+iv.rust+"].1", "Val", rty(lsig.Params().At(0).Type()))}
		}
		outs := t.inline(lfr.pkg, fmt.Sprintf("lit@%d", lit.Pos()), nil, lit.Type, lit.Body, lsig, as)
		t.emit("if !%s {", outs[0])
		t.ind++
		t.emit("%s = true;", lc.brk)
		t.ind--
		t.emit("}")
		return flags{lc.brk: true}
	}
	t.loop(c)
	if sp.lockOf != "" && t.dry == 0 {
		t.emit("h = Heap{Locker_held: h.Locker_held.insert(%s, 0), ..h};", t.subst(sp.lockOf, env))
	}
	var outs []string // what it returns is left open
	for i := 0; i < sig.Results().Len(); i++ {
		outs = append(outs, t.havoc(rty(sig.Results().At(i).Type())))
	}
	return outs
}

func goParams(fn *types.Func) []string {
	sig := fn.Type().(*types.Signature)
	var out []string
	if r := sig.Recv(); r != nil {
		nm := r.Name()
		if nm == "" || nm == "_" {
			nm = "recv"
		}
		out = append(out, nm)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Name())
	}
	return out
}

func (t *Fn) conversion(c *ast.CallExpr, to types.Type) string {
	e := c.Args[0]
	info := t.fr().info
	if tv := info.Types[e]; tv.Value != nil {
		if b, ok := to.Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&(types.IsInteger|types.IsFloat) != 0, b.Info()&types.IsBoolean != 0:
				return t.lit(constant.ToInt(tv.Value), to)
			}
		}
	}
	from := t.def(t.typ(e))
	fr, tr := rty(from), rty(to)
	if isNilIdent(e, info) {
		return zeroOf(tr)
	}
	if _, ok := to.(*types.TypeParam); ok {
		t.fail("conversion to type parameter")
	}
	v := t.exprTo(e, from)
	if isIface(to) {
		return t.exprTo(e, to)
	}
	fs, fok := from.Underlying().(*types.Slice)
	_ = fs
	switch {
	case fr == tr:
		fb, ok1 := from.Underlying().(*types.Basic)
		tb, ok2 := to.Underlying().(*types.Basic)
		if fr == "int" && ok1 && ok2 && fb.Info()&types.IsInteger != 0 {
			if fb.Kind() != tb.Kind() && intNarrow(fb, tb) {
				if w, _ := t.width(to); w == 0 {
					return fmt.Sprintf("wrap_s(%s, %s)", v, pow2(64))
				}
				return t.wrap(v, to)
			}
		}
		return v
	case tr == "Seq<u8>" && fok && fr == "Slice":
		t.u.field("arr_u8")
		return t.tmp(fmt.Sprintf("view(h.arr_u8, %s)", v))
	case fr == "Seq<u8>" && tr == "Slice":
		x := t.tmp(v)
		p := t.fresh("t")
		t.emit("let %s = h.top;", p)
		t.assume("dyn_of(" + p + ") == 0")
		t.modify("top")
		t.modify("arr_u8")
		t.emit("h = Heap{top: h.top + 1, arr_u8: h.arr_u8.insert(%s, IMap::new(|i: int| true, |i: int| if 0 <= i < %s.len() { %s[i] } else { 0u8 })), ..h};", p, x, x)
		s := t.fresh("t")
		t.emit("let %s = Slice{a: %s, off: 0, len: %s.len() as int, cap: %s.len() as int};", s, p, x, x)
		t.assume(fmt.Sprintf("view(h.arr_u8, %s) =~= %s", s, x))
		return s
	case fr == "int" && (tr == "u64" || tr == "u8" || tr == "u32"):
		return fmt.Sprintf("int_%s(%s)", tr, v)
	case fr == "u64" && tr == "int":
		if b := to.Underlying().(*types.Basic); b.Info()&types.IsUnsigned != 0 {
			return fmt.Sprintf("(%s as int)", v)
		}
		if w, _ := t.width(to); w != 0 && w < 64 {
			return t.wrap("("+v+" as int)", to)
		}
		return fmt.Sprintf("u64_int(%s)", v)
	case (fr == "u8" || fr == "u32") && tr == "int":
		if intNarrow(from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)) {
			return t.wrap("("+v+" as int)", to)
		}
		return fmt.Sprintf("(%s as int)", v)
	case tr == "u64" && (fr == "u8" || fr == "u32"), tr == "u32" && fr == "u8":
		return fmt.Sprintf("(%s as %s)", v, tr)
	case tr == "u8" && (fr == "u64" || fr == "u32"):
		return fmt.Sprintf("((%s & 0xff%s) as u8)", v, fr)
	case tr == "u32" && fr == "u64":
		return fmt.Sprintf("((%s & 0xffff_ffffu64) as u32)", v)
	case tr == "F" && (fr == "int" || fr == "u64" || fr == "u8" || fr == "u32"):
		return fmt.Sprintf("f_int(%s as int)", v)
	case fr == "F" && tr == "int":
		return fmt.Sprintf("f_trunc(%s)", v)
	case fr == "F" && tr == "u64":
		return fmt.Sprintf("int_u64(f_trunc(%s))", v)
	case tr == "Val" || fr == "Val":
		return conv(v, fr, tr)
	}
	t.fail("conversion from %v to %v", from, to)
	return ""
}

// intNarrow: may the value fail to fit the target type
func intNarrow(f, to *types.Basic) bool {
	w := func(k types.BasicKind) int {
		switch k {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32:
			return 32
		}
		return 64
	}
	fu, tu := f.Info()&types.IsUnsigned != 0, to.Info()&types.IsUnsigned != 0
	if fu == tu {
		return w(to.Kind()) < w(f.Kind())
	}
	if tu {
		return true
	}
	return w(to.Kind()) <= w(f.Kind())
}

func (t *Fn) builtin(name string, c *ast.CallExpr) ([]string, []types.Type) {
	intT := []types.Type{types.Typ[types.Int]}
	switch name {
	case "panic":
		t.explicitPanic()
		return nil, nil
	case "len":
		x := t.tmp(t.expr(c.Args[0]))
		switch rty(t.typ(c.Args[0])) {
		case "Slice":
			return []string{x + ".len"}, intT
		case "Seq<u8>":
			return []string{"(" + x + ".len() as int)"}, intT
		}
	case "cap":
		x := t.tmp(t.expr(c.Args[0]))
		if rty(t.typ(c.Args[0])) == "Slice" {
			return []string{x + ".cap"}, intT
		}
	case "real":
		return []string{"(" + t.expr(c.Args[0]) + ").re"}, []types.Type{t.typ(c)}
	case "imag":
		return []string{"(" + t.expr(c.Args[0]) + ").im"}, []types.Type{t.typ(c)}
	case "min", "max":
		ty := t.def(t.typ(c))
		switch rty(ty) {
		case "int", "u64", "u8", "u32":
		default:
			t.fail("%s of %v", name, ty)
		}
		cur := t.stable(t.exprTo(c.Args[0], ty))
		for _, a := range c.Args[1:] {
			b := t.stable(t.exprTo(a, ty))
			op := "<"
			if name == "max" {
				op = ">"
			}
			cur = t.stable(fmt.Sprintf("if %s %s %s { %s } else { %s }", b, op, cur, b, cur))
		}
		return []string{cur}, []types.Type{ty}
	case "new":
		ty := t.fr().info.TypeOf(c.Args[0])
		if !isStruct(ty) {
			t.fail("new(%v)", ty)
		}
		return []string{t.allocStruct(ty, nil)}, []types.Type{types.NewPointer(ty)}
	case "make":
		ty := t.fr().info.TypeOf(c.Args[0])
		sl, ok := ty.Underlying().(*types.Slice)
		if !ok {
			t.fail("make(%v)", ty)
		}
		n := t.stable(t.intExpr(c.Args[1]))
		cp := n
		if len(c.Args) > 2 {
			cp = t.stable(t.intExpr(c.Args[2]))
		}
		t.check("make_len", fmt.Sprintf("0 <= %s && %s <= %s", n, n, cp))
		return []string{t.makeSlice(sl.Elem(), n, cp)}, []types.Type{ty}
	case "copy":
		dt := t.typ(c.Args[0]).Underlying().(*types.Slice)
		d := t.tmp(t.expr(c.Args[0]))
		a := arrName(rty(dt.Elem()))
		s := t.tmp(t.exprTo(c.Args[1], t.def(t.typ(c.Args[1]))))
		if rty(t.typ(c.Args[1])) != "Slice" {
			t.fail("copy from string")
		}
		n := t.fresh("t")
		t.emit("let %s = if %s.len < %s.len { %s.len } else { %s.len };", n, d, s, d, s)
		t.lockWrite(d+".a", "")
		t.modify(a)
		t.emit("h = Heap{%s: h.%s.insert(%s.a, acopy(h.%s[%s.a], %s.off, h.%s[%s.a], %s.off, %s)), ..h};", a, a, d, a, d, d, a, s, s, n)
		return []string{n}, intT
	case "append":
		return t.appendCall(c)
	case "delete", "close", "print", "println", "recover", "complex", "clear":
	}
	t.fail("builtin %s", name)
	return nil, nil
}

func (t *Fn) appendCall(c *ast.CallExpr) ([]string, []types.Type) {
	ty := t.typ(c)
	st := ty.Underlying().(*types.Slice)
	el := rty(st.Elem())
	a := arrName(el)
	s := t.stable(t.exprTo(c.Args[0], ty))
	var add func(base, off string) string
	k := ""
	if c.Ellipsis.IsValid() {
		if rty(t.typ(c.Args[1])) != "Slice" && !isNilIdent(c.Args[1], t.fr().info) {
			t.fail("append of a string")
		}
		y := t.stable(t.exprTo(c.Args[1], ty))
		k = y + ".len"
		hy := t.fresh("t")
		t.u.field(a)
		t.emit("let %s = h.%s[%s.a];", hy, a, y)
		add = func(base, off string) string {
			return fmt.Sprintf("acopy(%s, %s, %s, %s.off, %s.len)", base, off, hy, y, y)
		}
	} else {
		var vals []string
		for _, x := range c.Args[1:] {
			vals = append(vals, t.stable(t.exprTo(x, st.Elem())))
		}
		k = fmt.Sprint(len(vals)) + "int"
		add = func(base, off string) string {
			for i, v := range vals {
				base = fmt.Sprintf("%s.insert(%s + %d, %s)", base, off, i, v)
			}
			return base
		}
	}
	t.modify(a)
	t.modify("top")
	r := t.fresh("ap")
	nc := t.havoc("int")
	t.emit("let mut %s: Slice = %s;", r, s)
	t.emit("if %s.len + %s <= %s.cap {", s, k, s)
	t.ind++
	if t.dry == 0 && t.spec.lockOf != "" {
		t.emit("if %s > 0 {", k)
		t.ind++
		t.lockWrite(s+".a", "")
		t.ind--
		t.emit("}")
	}
	t.emit("h = Heap{%s: h.%s.insert(%s.a, %s), ..h};", a, a, s, add(fmt.Sprintf("h.%s[%s.a]", a, s), s+".off + "+s+".len"))
	t.emit("%s = Slice{len: %s.len + %s, ..%s};", r, s, k, s)
	t.ind--
	t.emit("} else {")
	t.ind++
	t.assume(fmt.Sprintf("%s >= %s.len + %s", nc, s, k))
	base := fmt.Sprintf("acopy(zarr(%s), 0, h.%s[%s.a], %s.off, %s.len)", zeroOf(el), a, s, s, s)
	p := t.fresh("t")
	t.emit("let %s = h.top;", p)
	t.assume("dyn_of(" + p + ") == 0")
	t.emit("h = Heap{top: h.top + 1, %s: h.%s.insert(%s, %s), ..h};", a, a, p, add(base, s+".len"))
	t.emit("%s = Slice{a: %s, off: 0, len: %s.len + %s, cap: %s};", r, p, s, k, nc)
	t.ind--
	t.emit("}")
	return []string{r}, []types.Type{ty}
}

func (t *Fn) closedFacts(ms []string) {
	for _, f := range ms {
		if f == "top" {
			continue
		}
		if c := t.u.closed("h", f); c != "" {
			t.assume(c)
		}
	}
}

func typeName(ty types.Type) string {
	switch x := types.Unalias(ty).(type) {
	case *types.Named:
		return x.Obj().Name()
	case *types.Pointer:
		return typeName(x.Elem())
	case *types.Basic:
		return x.Name()
	}
	return "_"
}
