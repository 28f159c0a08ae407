package main

import (
	"go/types"
	"strings"
)

// rty maps a Go type to the Verus type that models it.
func rty(t types.Type) string {
	switch t := t.(type) {
	case *types.TypeParam:
		return "Val"
	case *types.Named:
		if _, ok := t.Underlying().(*types.Interface); ok {
			if t.Underlying().(*types.Interface).NumMethods() == 0 {
				return "Val"
			}
			return "int"
		}
		return rty(t.Underlying())
	case *types.Alias:
		return rty(types.Unalias(t))
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return "bool"
		case t.Info()&types.IsString != 0:
			return "Seq<u8>"
		case t.Info()&types.IsFloat != 0:
			return "F"
		case t.Info()&types.IsComplex != 0:
			return "C"
		}
		switch t.Kind() {
		case types.Uint64:
			return "u64"
		case types.Uint8:
			return "u8"
		case types.Uint32:
			return "u32"
		}
		return "int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		if t.NumMethods() == 0 {
			return "Val"
		}
		return "int"
	}
	return "int"
}

func isStruct(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func isIface(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() > 0
}

func isRef(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Interface:
		return isIface(t)
	}
	return false
}

func isPtr(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func arrName(elem string) string {
	switch elem {
	case "Seq<u8>":
		return "arr_str"
	}
	return "arr_" + elem
}

func named(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// funcKey gives pkg.Func or pkg.Recv.Method.
func funcKey(f *types.Func) string {
	f = f.Origin()
	sig := f.Type().(*types.Signature)
	pk := ""
	if f.Pkg() != nil {
		pk = f.Pkg().Name()
		if f.Pkg().Path() == "math/rand" {
			pk = "rand"
		}
	}
	if r := sig.Recv(); r != nil {
		if n := named(r.Type()); n != nil {
			return pk + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return pk + "." + f.Name()
}

func zeroOf(r string) string {
	switch r {
	case "int":
		return "0int"
	case "bool":
		return "false"
	case "u64":
		return "0u64"
	case "u8":
		return "0u8"
	case "u32":
		return "0u32"
	case "Slice":
		return "nil_slice()"
	case "Seq<u8>":
		return "Seq::<u8>::empty()"
	case "F":
		return "F::Num(0)"
	case "C":
		return "C{re: F::Num(0), im: F::Num(0)}"
	case "Val":
		return "zero_val()"
	}
	return "0int"
}

// conv converts a modelled value between representations (generic injection).
func conv(e, from, to string) string {
	if from == to {
		return e
	}
	nm := func(r string) string {
		switch r {
		case "Seq<u8>":
			return "str"
		}
		return strings.ToLower(r)
	}
	if to == "Val" {
		return "val_" + nm(from) + "(" + e + ")"
	}
	if from == "Val" {
		return "unval_" + nm(to) + "(" + e + ")"
	}
	return e
}
