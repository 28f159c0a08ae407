package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

func (t *Fn) typ(e ast.Expr) types.Type {
	if tv, ok := t.fr().info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := t.fr().info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	t.fail("no type for %T", e)
	return nil
}

func (t *Fn) zeroValue(ty types.Type) string {
	if isStruct(ty) {
		return t.allocStruct(ty, nil)
	}
	return zeroOf(rty(ty))
}

// ---------- struct layout ----------

type sfield struct {
	v   *types.Var
	idx int
}

func structOf(ty types.Type) (*types.Named, *types.Struct) {
	n := named(ty)
	if n == nil {
		s, _ := ty.Underlying().(*types.Struct)
		return nil, s
	}
	n = n.Origin()
	s, _ := n.Underlying().(*types.Struct)
	return n, s
}

func (t *Fn) fieldName(n *types.Named, f *types.Var) string {
	return t.u.structName(n) + "_" + f.Name()
}

func subref(idx int, ref string) string {
	if idx == 0 {
		return ref
	}
	return "-(" + ref + ")"
}

// allocStruct allocates an object with the given field values (others zero) and returns its reference.
func (t *Fn) allocStruct(ty types.Type, init map[string]string) string {
	n, st := structOf(ty)
	if n == nil {
		t.fail("anonymous struct")
	}
	p := t.fresh("t")
	t.emit("let %s = h.top;", p)
	t.modify("top")
	parts := []string{"top: h.top + 1"}
	t.structParts(n, st, p, init, "", &parts)
	t.emit("h = Heap{%s, ..h};", strings.Join(parts, ", "))
	t.assume(fmt.Sprintf("dyn_of(%s) == %s()", p, t.u.dynID(n)))
	return p
}

func (t *Fn) structParts(n *types.Named, st *types.Struct, ref string, init map[string]string, prefix string, parts *[]string) {
	if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		st = types.NewStruct(nil, nil) // opaque standard-library object: ghost state only
	}
	inner := 0
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if isStruct(f.Type()) {
			fn, fst := structOf(f.Type())
			if fst.NumFields() == 0 {
				continue
			}
			if i > 0 {
				inner++
				if inner > 1 || strings.HasPrefix(ref, "-") {
					t.fail("struct %s with several struct fields", t.u.structName(n))
				}
			}
			t.structParts(fn, fst, subref(i, ref), init, prefix+f.Name()+".", parts)
			continue
		}
		fnm := t.fieldName(n, f)
		t.modify(fnm)
		v, ok := init[prefix+f.Name()]
		if !ok {
			v = zeroOf(rty(f.Type()))
		}
		*parts = append(*parts, fmt.Sprintf("%s: h.%s.insert(%s, %s)", fnm, fnm, ref, v))
	}
	for _, g := range t.u.spec.ghosts {
		if strings.HasPrefix(g.name, t.u.structName(n)+"_") {
			if z := ghostZero(g.typ); z != "" {
				t.modify(g.name)
				*parts = append(*parts, fmt.Sprintf("%s: h.%s.insert(%s, %s)", g.name, g.name, ref, z))
			}
		}
	}
}

func ghostZero(ty string) string {
	switch {
	case strings.HasPrefix(ty, "Seq<"):
		return "Seq::empty()"
	case ty == "int":
		return "0int"
	case ty == "bool":
		return "false"
	}
	return ""
}

func (t *Fn) compositeInit(cl *ast.CompositeLit, ty types.Type, prefix string, init map[string]string) {
	_, st := structOf(ty)
	// instantiated field types
	ist := ty.Underlying().(*types.Struct)
	for i, e := range cl.Elts {
		var f *types.Var
		var ift types.Type
		val := e
		if kv, ok := e.(*ast.KeyValueExpr); ok {
			name := kv.Key.(*ast.Ident).Name
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == name {
					f, ift = st.Field(j), ist.Field(j).Type()
				}
			}
			val = kv.Value
		} else {
			f, ift = st.Field(i), ist.Field(i).Type()
		}
		if isStruct(f.Type()) {
			if sub, ok := unparen(val).(*ast.CompositeLit); ok {
				t.compositeInit(sub, ift, prefix+f.Name()+".", init)
				continue
			}
			t.fail("struct-valued field initialiser")
		}
		v := t.exprTo(val, ift)
		init[prefix+f.Name()] = t.tmp(conv(v, rty(ift), rty(f.Type())))
	}
}

func (t *Fn) copyStruct(v string, ty types.Type, e ast.Expr) string {
	if !isStruct(ty) {
		return v
	}
	switch unparen(e).(type) {
	case *ast.CompositeLit:
		return v
	}
	n, st := structOf(ty)
	if st.NumFields() == 0 {
		return v
	}
	init := map[string]string{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if isStruct(f.Type()) {
			t.fail("copy of nested struct")
		}
		fnm := t.fieldName(n, f)
		t.u.field(fnm)
		init[f.Name()] = t.tmp(fmt.Sprintf("h.%s[%s]", fnm, v))
	}
	return t.allocStruct(ty, init)
}

// ---------- typing facts ----------

func (t *Fn) typeFact(e, r string, ty types.Type) {
	if r == "Slice" {
		t.assume(fmt.Sprintf("slice_ok(%s, h.top)", e))
		return
	}
	if ty == nil {
		return
	}
	if isRef(ty) {
		t.assume(fmt.Sprintf("ref_ok(%s, h.top)", e))
		t.ifaceFact(e, ty)
		return
	}
	if w, signed := t.width(ty); w != 0 && r == "int" {
		if _, ok := ty.(*types.TypeParam); !ok {
			if signed {
				t.assume(fmt.Sprintf("-%s <= %s && %s < %s", pow2(w-1), e, e, pow2(w-1)))
			} else {
				t.assume(fmt.Sprintf("0 <= %s && %s < %s", e, e, pow2(w)))
			}
		}
	}
	if _, ok := ty.(*types.TypeParam); !ok {
		if p, ok := ty.Underlying().(*types.Pointer); ok {
			_ = p
		}
	}
}

func (t *Fn) ifaceFact(e string, ty types.Type) {
	if isIface(ty) {
		for _, id := range t.u.ifaceIDs(ty) {
			t.assume(fmt.Sprintf("%s != 0 ==> implements(dyn_of(%s), %s())", e, e, id))
		}
		return
	}
	if isPtr(ty) {
		// a pointer to a type that is the first field of another type may point into an object of that type
		if n := named(ty); n != nil && t.u.dynUsed[t.u.structName(n.Origin())] != nil && !t.u.isFirst(n.Origin()) {
			t.assume(fmt.Sprintf("%s > 0 ==> dyn_of(%s) == %s()", e, e, t.u.dynID(n.Origin())))
		}
	}
}

// width gives the bit width of integer types whose arithmetic is modelled exactly on mathematical
// integers with an explicit wrap (0: treated as unbounded).
func (t *Fn) width(ty types.Type) (int, bool) {
	if ty == nil {
		return 0, false
	}
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int64:
		return 64, true
	case types.Uint16:
		return 16, false
	case types.Uint, types.Uintptr:
		return 64, false
	case types.Int:
		if t.u.spec.exactInt {
			return 64, true
		}
	}
	return 0, false
}

func pow2(n int) string {
	return "0x" + strconv.FormatUint(1<<uint(n%4), 16) + strings.Repeat("0", n/4) + "int"
}

func (t *Fn) wrap(e string, ty types.Type) string {
	w, signed := t.width(ty)
	switch {
	case w == 0:
		return e
	case signed:
		return fmt.Sprintf("wrap_s(%s, %s)", e, pow2(w))
	}
	return fmt.Sprintf("wrap_u(%s, %s)", e, pow2(w))
}

// ---------- lvalues ----------

type lval struct {
	load  func() string
	store func(string)
	ty    types.Type
}

func (t *Fn) lval(e ast.Expr) lval {
	e = unparen(e)
	switch e := e.(type) {
	case *ast.Ident:
		if e.Name == "_" {
			return lval{store: func(string) {}, load: func() string { t.fail("load of _"); return "" }}
		}
		o := t.fr().info.ObjectOf(e)
		v := t.vars[o]
		if v == nil {
			t.fail("assignment to %s", e.Name)
		}
		if isStruct(o.Type()) {
			return lval{load: func() string { return v.rust }, ty: o.Type(), store: func(x string) {
				t.assign(v)
				t.emit("%s = %s;", v.rust, x)
			}}
		}
		return lval{load: func() string { return v.rust }, ty: o.Type(), store: func(x string) {
			t.assign(v)
			t.emit("%s = %s;", v.rust, x)
		}}
	case *ast.SelectorExpr:
		ref, fnm, f, ity := t.fieldRef(e)
		return lval{ty: ity, load: func() string { return t.loadField(ref, fnm, f, ity) }, store: func(x string) {
			t.storeField(fnm, ref, conv(x, rty(ity), rty(f.Type())))
		}}
	case *ast.IndexExpr:
		st, ok := t.typ(e.X).Underlying().(*types.Slice)
		if !ok {
			t.fail("index of %v", t.typ(e.X))
		}
		s := t.tmp(t.expr(e.X))
		i := t.tmp(t.intExpr(e.Index))
		t.check("bounds", fmt.Sprintf("0 <= %s && %s < %s.len", i, i, s))
		return lval{ty: st.Elem(), load: func() string { return t.loadElem(s, i, st.Elem()) }, store: func(x string) {
			t.storeElem(s, i, x, st.Elem())
		}}
	case *ast.StarExpr:
		t.fail("store through pointer")
	}
	t.fail("lvalue %T", e)
	return lval{}
}

func (t *Fn) loadElem(s, i string, ty types.Type) string {
	a := arrName(rty(ty))
	t.u.field(a)
	if isStruct(ty) {
		t.fail("slice of structs")
	}
	v := t.fresh("t")
	t.emit("let %s = h.%s[%s.a][%s.off + %s];", v, a, s, s, i)
	t.typeFact(v, rty(ty), ty)
	return v
}

func (t *Fn) storeElem(s, i, x string, ty types.Type) {
	a := arrName(rty(ty))
	t.lockWrite(s+".a", "")
	t.modify(a)
	t.emit("h = Heap{%s: h.%s.insert(%s.a, h.%s[%s.a].insert(%s.off + %s, %s)), ..h};", a, a, s, a, s, s, i, x)
}

// fieldRef resolves a field selection: the reference of the object, the heap field, the origin field and its instantiated type.
func (t *Fn) fieldRef(e *ast.SelectorExpr) (string, string, *types.Var, types.Type) {
	sel := t.fr().info.Selections[e]
	if sel == nil || sel.Kind() != types.FieldVal {
		t.fail("selector %s", e.Sel.Name)
	}
	base := t.tmp(t.expr(e.X))
	cur := sel.Recv()
	var f *types.Var
	var n *types.Named
	for k, i := range sel.Index() {
		if isPtr(cur) {
			t.check("nil", base+" != 0")
			cur = deref(cur)
		}
		var st *types.Struct
		n, st = structOf(cur)
		if n == nil {
			t.fail("anonymous struct")
		}
		f = st.Field(i)
		ist := cur.Underlying().(*types.Struct)
		cur = ist.Field(i).Type()
		if k == len(sel.Index())-1 {
			break
		}
		if isStruct(f.Type()) {
			base = t.tmp(subref(i, base))
		} else {
			base = t.loadField(base, t.fieldName(n, f), f, cur)
		}
	}
	return base, t.fieldName(n, f), f, cur
}

func (t *Fn) loadField(ref, fnm string, f *types.Var, ity types.Type) string {
	t.u.field(fnm)
	t.guardLoad(ref, fnm)
	v := t.fresh("t")
	t.emit("let %s = h.%s[%s];", v, fnm, ref)
	t.typeFact(v, rty(f.Type()), f.Type())
	return t.maybeTmp(conv(v, rty(f.Type()), rty(ity)))
}

func (t *Fn) guardLoad(ref, fnm string) {
	if t.dry > 0 || t.spec.lockOf == "" {
		return
	}
	for _, g := range t.u.spec.guards {
		w := strings.Fields(g)
		if strings.ReplaceAll(w[0], ".", "_") == fnm {
			l := t.subst(t.spec.lockOf, t.entryEnv())
			if strings.Split(w[0], ".")[0] != strings.Split(w[1], ".")[0] {
				// state of a part of the container: guarded by the container's lock
				t.ob("lock_read_"+fnm, []string{"C23"}, fmt.Sprintf("%s >= h0.top || h.Locker_held[%s] >= 1", ref, l))
				continue
			}
			t.ob("lock_read_"+fnm, []string{"C23"}, fmt.Sprintf("%s >= h0.top || h.Locker_held[h.%s[%s]] >= 1", ref, strings.ReplaceAll(w[1], ".", "_"), ref))
		}
	}
}

func (t *Fn) maybeTmp(e string) string {
	return t.tmp(e)
}

// ---------- expressions ----------

func (t *Fn) exprTo(e ast.Expr, ty types.Type) string {
	tv := t.fr().info.Types[e]
	if tv.IsNil() || isNilIdent(e, t.fr().info) {
		return zeroOf(rty(ty))
	}
	if tv.Value != nil {
		if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			if rty(ty) == "Val" {
				return conv(t.lit(tv.Value, types.Default(tv.Type)), rty(types.Default(tv.Type)), "Val")
			}
			return t.lit(tv.Value, ty)
		}
	}
	et := t.typ(e)
	v := t.expr(e)
	if isIface(ty) && !isIface(et) && isStruct(et) {
		// boxing a struct value
		n, st := structOf(et)
		if st.NumFields() == 0 {
			p := t.allocStruct(et, nil)
			_ = n
			return p
		}
		return t.copyStruct(v, et, e)
	}
	return conv(v, rty(et), rty(ty))
}

func isNilIdent(e ast.Expr, info *types.Info) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok {
		return false
	}
	_, isnil := info.ObjectOf(id).(*types.Nil)
	return isnil
}

func (t *Fn) intExpr(e ast.Expr) string {
	r := rty(t.typ(e))
	v := t.exprTo(e, t.defaultTy(e))
	if r == "u64" || r == "u8" || r == "u32" {
		return "(" + v + " as int)"
	}
	return v
}

func (t *Fn) defaultTy(e ast.Expr) types.Type {
	ty := t.typ(e)
	if b, ok := ty.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return types.Default(ty)
	}
	return ty
}

func (t *Fn) lit(v constant.Value, ty types.Type) string {
	switch rty(ty) {
	case "bool":
		if v.Kind() == constant.Bool {
			return fmt.Sprint(constant.BoolVal(v))
		}
	case "int":
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			s := i.ExactString()
			if strings.HasPrefix(s, "-") {
				return "(-" + s[1:] + "int)"
			}
			return s + "int"
		}
	case "u64", "u8", "u32":
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			return i.ExactString() + rty(ty)
		}
	case "Seq<u8>":
		if v.Kind() == constant.String {
			s := constant.StringVal(v)
			if s == "" {
				return "Seq::<u8>::empty()"
			}
			var b []string
			for i := 0; i < len(s); i++ {
				b = append(b, fmt.Sprintf("%du8", s[i]))
			}
			return "seq![" + strings.Join(b, ", ") + "]"
		}
	case "F":
		f := constant.ToFloat(v)
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			return fmt.Sprintf("f_int(%sint)", strings.ReplaceAll(i.ExactString(), "-", "-"))
		}
		if f.Kind() == constant.Float {
			return fmt.Sprintf("f_rat(%sint, %sint)", constant.Num(f).ExactString(), constant.Denom(f).ExactString())
		}
		return fmt.Sprintf("f_rat(%sint, 1int)", f.ExactString())
	}
	t.fail("constant %v of type %v", v, ty)
	return ""
}

func (t *Fn) expr(e ast.Expr) string {
	info := t.fr().info
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		return t.lit(tv.Value, types.Default(tv.Type))
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return t.expr(e.X)
	case *ast.Ident:
		o := info.ObjectOf(e)
		switch o := o.(type) {
		case *types.Nil:
			return zeroOf(rty(t.typ(e)))
		case *types.Var:
			if v := t.vars[o]; v != nil {
				return v.rust
			}
			if o.Parent() == o.Pkg().Scope() {
				return t.global(o)
			}
			t.fail("variable %s", e.Name)
		case *types.Func:
			return t.u.funcValue(o)
		}
		t.fail("identifier %s", e.Name)
	case *ast.SelectorExpr:
		if sel := info.Selections[e]; sel != nil {
			if sel.Kind() != types.FieldVal {
				t.fail("method value")
			}
			// struct-valued field: its address stands for it
			ref, fnm, f, ity := t.fieldRefOrSub(e)
			if f == nil {
				return ref
			}
			return t.loadField(ref, fnm, f, ity)
		}
		switch o := info.Uses[e.Sel].(type) {
		case *types.Var:
			return t.global(o)
		case *types.Func:
			return t.u.funcValue(o)
		}
		t.fail("selector %s", e.Sel.Name)
	case *ast.IndexExpr:
		if _, ok := info.Types[e.X]; ok {
			if _, ok := t.typ(e.X).(*types.Signature); ok { // explicit instantiation
				return t.expr(e.X)
			}
		}
		return t.lval(e).load()
	case *ast.SliceExpr:
		return t.sliceExpr(e)
	case *ast.StarExpr:
		if c, ok := unparen(e.X).(*ast.CallExpr); ok {
			if id, ok := unparen(c.Fun).(*ast.Ident); ok && id.Name == "new" {
				return t.zeroValue(t.typ(e))
			}
		}
		if isStruct(t.typ(e)) {
			p := t.tmp(t.expr(e.X))
			t.check("nil", p+" != 0")
			return p
		}
		t.fail("dereference")
	case *ast.UnaryExpr:
		return t.unary(e)
	case *ast.BinaryExpr:
		return t.binary(e)
	case *ast.CallExpr:
		vs, tys := t.call(e)
		if len(vs) != 1 {
			t.fail("call with %d values in expression", len(vs))
		}
		_ = tys
		return vs[0]
	case *ast.TypeAssertExpr:
		v, _ := t.typeAssert(e, false)
		return v
	case *ast.CompositeLit:
		ty := t.typ(e)
		if isStruct(ty) {
			init := map[string]string{}
			t.compositeInit(e, ty, "", init)
			return t.allocStruct(ty, init)
		}
		if sl, ok := ty.Underlying().(*types.Slice); ok {
			var vals []string
			for _, x := range e.Elts {
				if _, ok := x.(*ast.KeyValueExpr); ok {
					t.fail("keyed slice literal")
				}
				vals = append(vals, t.tmp(t.exprTo(x, sl.Elem())))
			}
			n := fmt.Sprint(len(vals)) + "int"
			s := t.makeSlice(sl.Elem(), n, n)
			for i, v := range vals {
				t.storeElem(s, fmt.Sprint(i)+"int", v, sl.Elem())
			}
			return s
		}
		t.fail("composite literal of %v", ty)
	case *ast.FuncLit:
		return t.funcLit(e)
	}
	t.fail("expression %T", e)
	return ""
}

func (t *Fn) funcLit(e *ast.FuncLit) string {
	v := t.fresh("t")
	t.havocs = append(t.havocs, v+"f: int")
	t.emit("let %s = %sf;", v, v)
	t.assume(v + " != 0")
	t.calls["$lit"]++
	k := t.calls["$lit"]
	c := t.spec.closures[k]
	if c == nil || t.dry > 0 || len(t.frames) > 1 {
		return v
	}
	// the body is verified against the closure's contract for arbitrary arguments
	sig := t.typ(e).Underlying().(*types.Signature)
	if len(c.params) != sig.Params().Len() {
		t.fail("closure %d has %d parameters", k, sig.Params().Len())
	}
	hb := t.fresh("t")
	t.havocs = append(t.havocs, hb+": bool")
	hc := t.fresh("hc")
	if c.as != "" {
		// the body may run in any later heap
		hx := t.havoc("Heap")
		t.emit("let %s = if %s { %s } else { h };", hc, hb, hx)
		t.emit("if %s {", hb)
		t.ind++
		t.assume(hx + ".top >= h.top")
		t.assume("h_closed(" + hx + ")")
		t.emit("h = %s;", hx)
	} else {
		t.emit("let %s = h;", hc)
		t.emit("if %s {", hb)
		t.ind++
	}
	env := t.localEnv()
	var as []string
	for i, p := range c.params {
		a := t.havoc(rty(sig.Params().At(i).Type()))
		t.typeFact(a, rty(sig.Params().At(i).Type()), sig.Params().At(i).Type())
		if isPtr(sig.Params().At(i).Type()) {
			t.assume(a + " > 0")
		}
		as = append(as, a)
		env[p] = a
	}
	if c.as != "" {
		if decl := t.u.spec.funcs[c.as]; decl != nil {
			fenv := map[string]string{"h0": "h", "h": "h"}
			fenv[decl.params[0]] = v
			for i, p := range decl.params[1:] {
				fenv[p] = as[i]
			}
			for _, rq := range decl.requires {
				t.assume(t.subst(rq.expr, fenv))
			}
		}
	}
	mods := map[string]bool{}
	_, mods = t.dryRun(func() {
		t.inline(t.fr().pkg, fmt.Sprintf("lit@%d", e.Pos()), nil, e.Type, e.Body, sig, as)
	})
	outs := t.inline(t.fr().pkg, fmt.Sprintf("lit@%d", e.Pos()), nil, e.Type, e.Body, sig, as)
	if c.result != "" && len(outs) == 1 {
		env[c.result] = outs[0]
	}
	env["h0"] = hc
	env["h"] = "h"
	t.ob(fmt.Sprintf("closure%d", k), c.tags, t.subst(c.expr, env))
	var decl *FuncSpec
	if c.as != "" {
		decl = t.u.spec.funcs[c.as]
		if decl == nil {
			t.fail("unknown function type contract %s", c.as)
		}
		fenv := map[string]string{"h0": hc, "h": "h"}
		fenv[decl.params[0]] = v
		for i, p := range decl.params[1:] {
			fenv[p] = as[i]
		}
		for i, en := range decl.ensures {
			t.ob(fmt.Sprintf("closure%d_ensures_%d", k, i+1), c.tags, t.subst(en.expr, fenv))
		}
		fenv["h"] = hc
		t.closureFrame(k, c, decl, mods, hc, fenv)
	} else {
		t.closureFrame(k, c, nil, mods, hc, nil)
	}
	t.emit("assume(false);")
	t.ind--
	t.emit("}")
	if sig.Results().Len() == 1 {
		call := ""
		var decls []string
		env := t.localEnv()
		var cargs []string
		for i, p := range c.params {
			r := rty(sig.Params().At(i).Type())
			decls = append(decls, "c_"+p+": "+r)
			env[p] = "c_" + p
			cargs = append(cargs, conv("c_"+p, r, "Val"))
		}
		switch {
		case len(c.params) == 2 && rty(sig.Results().At(0).Type()) == "int":
			call = fmt.Sprintf("cmpv(%s, %s, %s)", v, cargs[0], cargs[1])
		case len(c.params) == 1 && rty(sig.Results().At(0).Type()) == "bool":
			call = fmt.Sprintf("predv(%s, %s)", v, cargs[0])
		}
		if call != "" {
			env[c.result] = call
			t.assume(fmt.Sprintf("forall|%s| #![trigger %s] %s", strings.Join(decls, ", "), call, t.subst(c.expr, env)))
		}
	}
	return v
}

func (t *Fn) closureFrame(k int, c *Closure, decl *FuncSpec, mods map[string]bool, hc string, env map[string]string) {
	for f := range mods {
		if f == "top" {
			continue
		}
		if !t.u.isMapField(f) {
			t.ob(fmt.Sprintf("closure%d_frame_%s", k, f), c.tags, fmt.Sprintf("h.%s == %s.%s", f, hc, f))
			continue
		}
		cond := "old_ref(" + hc + ", rr)"
		if decl != nil {
			skip := false
			for _, m := range decl.mods {
				if m.field == f {
					skip = m.all
					for _, r := range m.refs {
						if r != "fresh" {
							cond += " && rr != (" + t.subst(r, env) + ")"
						}
					}
				}
			}
			if skip {
				continue
			}
		}
		t.ob(fmt.Sprintf("closure%d_frame_%s", k, f), c.tags, fmt.Sprintf("forall|rr: int| #![trigger h.%s[rr]] %s ==> h.%s[rr] == %s.%s[rr]", f, cond, f, hc, f))
	}
}

func (t *Fn) fieldRefOrSub(e *ast.SelectorExpr) (string, string, *types.Var, types.Type) {
	sel := t.fr().info.Selections[e]
	if isStruct(sel.Obj().Type()) {
		return t.addrOf(e), "", nil, nil
	}
	return t.fieldRef(e)
}

// addrOf gives the reference of a struct-valued place.
func (t *Fn) addrOf(e ast.Expr) string {
	e = unparen(e)
	switch e := e.(type) {
	case *ast.Ident:
		return t.expr(e)
	case *ast.CompositeLit:
		return t.expr(e)
	case *ast.StarExpr:
		return t.expr(e)
	case *ast.SelectorExpr:
		sel := t.fr().info.Selections[e]
		if sel == nil {
			return t.expr(e)
		}
		base := t.tmp(t.expr(e.X))
		cur := sel.Recv()
		for _, i := range sel.Index() {
			if isPtr(cur) {
				t.check("nil", base+" != 0")
				cur = deref(cur)
			}
			n, st := structOf(cur)
			f := st.Field(i)
			cur = cur.Underlying().(*types.Struct).Field(i).Type()
			if isStruct(f.Type()) {
				base = t.tmp(subref(i, base))
			} else {
				base = t.loadField(base, t.fieldName(n, f), f, cur)
			}
		}
		return base
	}
	if c, ok := e.(*ast.CallExpr); ok {
		// an opaque struct value returned by a function of the standard library, used as a receiver
		if n, _ := structOf(t.typ(e)); n != nil && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return t.tmp(t.expr(c))
		}
	}
	t.fail("address of %T", e)
	return ""
}

func (t *Fn) global(o *types.Var) string {
	p := t.u.ld.pkgs[strings.TrimPrefix(o.Pkg().Path(), modPath+"/")]
	if p == nil {
		return t.u.globalConst(o)
	}
	if p.mutated[o] {
		t.fail("mutable package variable %s", o.Name())
	}
	if init := p.inits[o]; init != nil {
		if tv := p.info.Types[init]; tv.Value != nil {
			return t.lit(tv.Value, o.Type())
		}
	}
	return t.u.globalConst(o)
}

func (t *Fn) unary(e *ast.UnaryExpr) string {
	switch e.Op {
	case token.AND:
		return t.addrOf(e.X)
	case token.NOT:
		return "!(" + t.expr(e.X) + ")"
	case token.SUB:
		r := rty(t.typ(e))
		x := t.expr(e.X)
		if r == "int" {
			return t.wrap("(-("+x+"))", t.def(t.typ(e)))
		}
	case token.ADD:
		return t.expr(e.X)
	case token.XOR:
		r := rty(t.typ(e))
		if r == "u8" || r == "u64" || r == "u32" {
			return "(!(" + t.exprTo(e.X, t.typ(e)) + "))"
		}
	}
	t.fail("unary %v", e.Op)
	return ""
}

func (t *Fn) binary(e *ast.BinaryExpr) string {
	switch e.Op {
	case token.LAND, token.LOR:
		a := t.tmp(t.expr(e.X))
		mark := len(t.buf)
		t.ind++
		b := t.expr(e.Y)
		t.ind--
		if len(t.buf) == mark {
			if e.Op == token.LAND {
				return "(" + a + " && " + b + ")"
			}
			return "(" + a + " || " + b + ")"
		}
		extra := append([]string(nil), t.buf[mark:]...)
		t.buf = t.buf[:mark]
		v := t.fresh("sc")
		t.emit("let mut %s = %s;", v, a)
		if e.Op == token.LAND {
			t.emit("if %s {", v)
		} else {
			t.emit("if !%s {", v)
		}
		t.buf = append(t.buf, extra...)
		t.ind++
		t.emit("%s = %s;", v, b)
		t.ind--
		t.emit("}")
		return v
	case token.EQL, token.NEQ:
		xt, yt := t.typ(e.X), t.typ(e.Y)
		ty := xt
		if isNilIdent(e.X, t.fr().info) || (isUntyped(xt) && !isUntyped(yt)) || (isIface(yt) && !isIface(xt)) {
			ty = yt
		}
		a := t.tmp(t.exprTo(e.X, t.def(ty)))
		b := t.tmp(t.exprTo(e.Y, t.def(ty)))
		r := t.equal(a, b, ty)
		if e.Op == token.NEQ {
			return "!(" + r + ")"
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		xt, yt := t.typ(e.X), t.typ(e.Y)
		ty := xt
		if isUntyped(xt) && !isUntyped(yt) {
			ty = yt
		}
		ty = t.def(ty)
		a := t.tmp(t.exprTo(e.X, ty))
		b := t.tmp(t.exprTo(e.Y, ty))
		op := e.Op.String()
		switch rty(ty) {
		case "int", "u64", "u8", "u32":
			return fmt.Sprintf("(%s %s %s)", a, op, b)
		}
		pre := map[string]string{"F": "f", "Seq<u8>": "str", "Val": "val"}[rty(ty)]
		if pre == "" {
			t.fail("comparison of %v", ty)
		}
		switch e.Op {
		case token.LSS:
			return fmt.Sprintf("%s_lt(%s, %s)", pre, a, b)
		case token.GTR:
			return fmt.Sprintf("%s_lt(%s, %s)", pre, b, a)
		case token.LEQ:
			return fmt.Sprintf("%s_le(%s, %s)", pre, a, b)
		}
		return fmt.Sprintf("%s_le(%s, %s)", pre, b, a)
	}
	ty := t.def(t.typ(e))
	if e.Op == token.SHL || e.Op == token.SHR {
		a := t.tmp(t.exprTo(e.X, ty))
		b := t.tmp(t.intExpr(e.Y))
		return t.shift(e.Op, a, b, e, ty)
	}
	a := t.tmp(t.exprTo(e.X, ty))
	b := t.tmp(t.exprTo(e.Y, ty))
	if e.Op == token.QUO || e.Op == token.REM {
		if r := rty(ty); r == "int" || r == "u64" || r == "u8" || r == "u32" {
			if tv := t.fr().info.Types[e.Y]; tv.Value == nil || constant.Sign(tv.Value) == 0 {
				t.check("div_by_zero", b+" != 0")
			}
		}
	}
	return t.arith(e.Op, a, b, ty)
}

func (t *Fn) shift(op token.Token, a, b string, e *ast.BinaryExpr, ty types.Type) string {
	r := rty(ty)
	switch r {
	case "u64", "u8", "u32":
		w := map[string]string{"u64": "64", "u8": "8", "u32": "32"}[r]
		o := "<<"
		if op == token.SHR {
			o = ">>"
		}
		amt := fmt.Sprintf("((%s) as %s)", b, r)
		// keep the operand typed when the source shift amount already has the same width
		if yr := rty(t.def(t.typ(e.Y))); yr == r {
			b2 := strings.TrimSuffix(strings.TrimPrefix(b, "("), " as int)")
			amt = b2
		}
		if tv := t.fr().info.Types[e.Y]; tv.Value != nil {
			if s, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok {
				wi := map[string]int64{"u64": 64, "u8": 8, "u32": 32}[r]
				if s < wi {
					return fmt.Sprintf("(%s %s %d%s)", a, o, s, r)
				}
				return "0" + r
			}
		}
		return fmt.Sprintf("(if (%s) < %s { %s %s %s } else { 0%s })", b, w, a, o, amt, r)
	case "int":
		if tv := t.fr().info.Types[e.Y]; tv.Value != nil {
			if s, ok := constant.Int64Val(constant.ToInt(tv.Value)); ok && s >= 0 && s < 62 {
				if op == token.SHR {
					return fmt.Sprintf("(%s / %dint)", a, int64(1)<<uint(s))
				}
				return t.wrap(fmt.Sprintf("(%s * %dint)", a, int64(1)<<uint(s)), ty)
			}
		}
	}
	t.fail("shift of %v", ty)
	return ""
}

func isUntyped(ty types.Type) bool {
	b, ok := ty.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func (t *Fn) def(ty types.Type) types.Type {
	if isUntyped(ty) {
		return types.Default(ty)
	}
	return ty
}

func (t *Fn) equal(a, b string, ty types.Type) string {
	switch rty(ty) {
	case "Seq<u8>":
		return fmt.Sprintf("(%s =~= %s)", a, b)
	case "F":
		return fmt.Sprintf("f_eq(%s, %s)", a, b)
	case "C":
		return fmt.Sprintf("c_eq(%s, %s)", a, b)
	case "Slice": // comparison with nil
		return fmt.Sprintf("slice_nil(%s, %s)", a, b)
	case "Val":
		return fmt.Sprintf("val_eq(%s, %s)", a, b)
	}
	return fmt.Sprintf("(%s == %s)", a, b)
}

func (t *Fn) arith(op token.Token, a, b string, ty types.Type) string {
	r := rty(ty)
	switch r {
	case "int":
		switch op {
		case token.ADD, token.SUB, token.MUL:
			return t.wrap(fmt.Sprintf("(%s %s %s)", a, op, b), ty)
		case token.QUO:
			return t.wrap(fmt.Sprintf("go_div(%s, %s)", a, b), ty)
		case token.REM:
			return fmt.Sprintf("go_mod(%s, %s)", a, b)
		}
	case "u64", "u8", "u32":
		m := map[string]string{"u64": "0x1_0000_0000_0000_0000", "u8": "0x100", "u32": "0x1_0000_0000"}[r]
		switch op {
		case token.ADD, token.SUB, token.MUL:
			return fmt.Sprintf("(((%s %s %s) %% %s) as %s)", a, op, b, m, r)
		case token.QUO, token.REM:
			return fmt.Sprintf("((%s as int %s %s as int) as %s)", a, op, b, r)
		case token.AND, token.OR, token.XOR:
			return fmt.Sprintf("(%s %s %s)", a, op, b)
		case token.AND_NOT:
			return fmt.Sprintf("(%s & !%s)", a, b)
		}
	case "Seq<u8>":
		if op == token.ADD {
			return fmt.Sprintf("(%s + %s)", a, b)
		}
	case "F":
		nm := map[token.Token]string{token.ADD: "f_add", token.SUB: "f_sub", token.MUL: "f_mul", token.QUO: "f_div"}[op]
		if nm != "" {
			return fmt.Sprintf("%s(%s, %s)", nm, a, b)
		}
	}
	t.fail("operator %v on %v", op, ty)
	return ""
}

func (t *Fn) sliceExpr(e *ast.SliceExpr) string {
	if _, ok := t.typ(e.X).Underlying().(*types.Slice); !ok {
		t.fail("slice of %v", t.typ(e.X))
	}
	s := t.tmp(t.expr(e.X))
	lo, hi := "0int", s+".len"
	if e.Low != nil {
		lo = t.tmp(t.intExpr(e.Low))
	}
	if e.High != nil {
		hi = t.tmp(t.intExpr(e.High))
	}
	mx := s + ".cap"
	if e.Slice3 {
		mx = t.tmp(t.intExpr(e.Max))
		t.check("slice_max", fmt.Sprintf("%s <= %s && %s <= %s.cap", hi, mx, mx, s))
	}
	t.check("slice_bounds", fmt.Sprintf("0 <= %s && %s <= %s && %s <= %s.cap", lo, lo, hi, hi, s))
	v := t.fresh("t")
	t.emit("let %s = Slice{a: %s.a, off: %s.off + %s, len: %s - %s, cap: %s - %s};", v, s, s, lo, hi, lo, mx, lo)
	return v
}

func (t *Fn) makeSlice(elem types.Type, n, c string) string {
	a := arrName(rty(elem))
	p := t.fresh("t")
	t.emit("let %s = h.top;", p)
	t.modify("top")
	t.modify(a)
	if isStruct(elem) {
		t.fail("slice of structs")
	}
	t.emit("h = Heap{top: h.top + 1, %s: h.%s.insert(%s, zarr(%s)), ..h};", a, a, p, zeroOf(rty(elem)))
	t.assume("dyn_of(" + p + ") == 0")
	v := t.fresh("t")
	t.emit("let %s = Slice{a: %s, off: 0, len: %s, cap: %s};", v, p, n, c)
	return v
}

func (t *Fn) assignStmt(s *ast.AssignStmt) {
	info := t.fr().info
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
		ty := t.typ(s.Lhs[0])
		lv := t.lval(s.Lhs[0])
		cur := t.tmp(lv.load())
		if op == token.SHL || op == token.SHR {
			b := t.tmp(t.intExpr(s.Rhs[0]))
			be := &ast.BinaryExpr{X: s.Lhs[0], Op: op, Y: s.Rhs[0]}
			lv.store(t.shift(op, cur, b, be, ty))
			return
		}
		b := t.tmp(t.exprTo(s.Rhs[0], ty))
		if op == token.QUO || op == token.REM {
			t.check("div_by_zero", b+" != 0")
		}
		lv.store(t.arith(op, cur, b, ty))
		return
	}
	var vals []string
	var tys []types.Type
	if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		vals, tys = t.multi(s.Rhs[0])
	}
	if s.Tok == token.DEFINE {
		if vals == nil {
			for i, e := range s.Rhs {
				id := s.Lhs[i].(*ast.Ident)
				var ty types.Type
				if o := info.Defs[id]; o != nil {
					ty = o.Type()
				} else if id.Name == "_" {
					ty = t.def(t.typ(e))
				} else {
					ty = t.typ(id)
				}
				v := t.exprTo(e, ty)
				if len(s.Rhs) > 1 {
					v = t.stable(v)
				}
				vals = append(vals, t.copyStruct(v, ty, e))
				tys = append(tys, ty)
			}
		}
		for i, l := range s.Lhs {
			id := l.(*ast.Ident)
			if id.Name == "_" {
				continue
			}
			if o := info.Defs[id]; o != nil {
				t.declInit(id, o, conv(vals[i], rty(tys[i]), rty(o.Type())), o.Type())
			} else {
				lv := t.lval(id)
				lv.store(conv(vals[i], rty(tys[i]), rty(lv.ty)))
			}
		}
		return
	}
	if len(s.Lhs) == 1 {
		if id, ok := s.Lhs[0].(*ast.Ident); ok && id.Name == "_" {
			t.exprTo(s.Rhs[0], t.def(t.typ(s.Rhs[0])))
			return
		}
		// Go evaluates index and pointer operands first, then the right-hand side
		ty := t.typ(s.Lhs[0])
		lv := t.lval(s.Lhs[0])
		v := t.exprTo(s.Rhs[0], ty)
		lv.store(t.tmp(t.copyStruct(v, ty, s.Rhs[0])))
		return
	}
	var lvs []lval
	for _, l := range s.Lhs {
		lvs = append(lvs, t.lval(l))
	}
	if vals == nil {
		for i, e := range s.Rhs {
			ty := lvs[i].ty
			if ty == nil {
				ty = t.def(t.typ(e))
			}
			vals = append(vals, t.stable(t.exprTo(e, ty)))
			tys = append(tys, ty)
		}
	}
	for i := range lvs {
		to := tys[i]
		if lvs[i].ty != nil {
			to = lvs[i].ty
		}
		lvs[i].store(conv(vals[i], rty(tys[i]), rty(to)))
	}
}

// stable copies a value so that later assignments do not change it.
func (t *Fn) stable(e string) string {
	v := t.fresh("t")
	t.emit("let %s = %s;", v, e)
	return v
}

// multi evaluates an expression with several values.
func (t *Fn) multi(e ast.Expr) ([]string, []types.Type) {
	switch e := unparen(e).(type) {
	case *ast.CallExpr:
		return t.call(e)
	case *ast.TypeAssertExpr:
		v, ok := t.typeAssert(e, true)
		return []string{v, ok}, []types.Type{t.fr().info.TypeOf(e.Type), types.Typ[types.Bool]}
	}
	t.fail("multi-value %T", e)
	return nil, nil
}

func (t *Fn) typeAssert(e *ast.TypeAssertExpr, commaOk bool) (string, string) {
	x := t.tmp(t.expr(e.X))
	to := t.fr().info.TypeOf(e.Type)
	var cond string
	if isIface(to) {
		cond = fmt.Sprintf("%s != 0 && implements(dyn_of(%s), %s())", x, x, t.u.ifaceID(to))
	} else if n := named(to); n != nil && isPtr(to) {
		cond = fmt.Sprintf("%s != 0 && dyn_of(%s) == %s()", x, x, t.u.dynID(n.Origin()))
	} else {
		t.fail("type assertion to %v", to)
	}
	if commaOk {
		ok := t.fresh("t")
		t.emit("let %s = %s;", ok, cond)
		v := t.fresh("t")
		t.emit("let %s = if %s { %s } else { 0int };", v, ok, x)
		return v, ok
	}
	t.check("type_assertion", cond)
	return x, ""
}
