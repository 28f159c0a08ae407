#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, dead_code, non_snake_case, non_camel_case_types, unused_parens, unused_braces)]
#![cfg_attr(verus_keep_ghost, verifier::exec_allows_no_decreases_clause)]
use vstd::prelude::*;
use vstd::imap::*;
use vstd::seq::*;
use vstd::seq_lib::*;
use vstd::multiset::*;
verus! {
pub mod pre {
use super::*;

// ---------- values ----------
// An element of type T: Go's value is opaque; the generic code cannot look inside.
#[verifier::external_body]
pub struct Val { x: u8 }
pub uninterp spec fn zero_val() -> Val;
pub uninterp spec fn val_eq(a: Val, b: Val) -> bool;
pub uninterp spec fn val_lt(a: Val, b: Val) -> bool;
pub uninterp spec fn val_le(a: Val, b: Val) -> bool;

// slices: array identity, offset, length, capacity
pub struct Slice { pub a: int, pub off: int, pub len: int, pub cap: int }
pub open spec fn nil_slice() -> Slice { Slice { a: 0, off: 0, len: 0, cap: 0 } }
pub open spec fn slice_nil(s: Slice, t: Slice) -> bool { s.a == t.a && s.a == 0 }
pub open spec fn slice_ok(s: Slice, top: int) -> bool {
    0 <= s.off && 0 <= s.len && s.len <= s.cap && 0 <= s.a && s.a < top && (s.a == 0 ==> s.cap == 0)
}
pub open spec fn ref_ok(r: int, top: int) -> bool { -top < r && r < top }
pub open spec fn zarr<T>(z: T) -> IMap<int, T> { IMap::new(|i: int| true, |i: int| z) }
pub open spec fn nn(x: int) -> nat { if x >= 0 { x as nat } else { 0 } }
pub open spec fn view<T>(m: IMap<int, IMap<int, T>>, s: Slice) -> Seq<T> {
    Seq::new(nn(s.len), |i: int| m[s.a][s.off + i])
}
pub open spec fn acopy<T>(d: IMap<int, T>, doff: int, s: IMap<int, T>, soff: int, n: int) -> IMap<int, T> {
    IMap::new(|i: int| true, |i: int| if doff <= i && i < doff + n { s[i - doff + soff] } else { d[i] })
}

// ---------- integers ----------
pub open spec fn go_div(a: int, b: int) -> int {
    if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } }
}
pub open spec fn go_mod(a: int, b: int) -> int { a - b * go_div(a, b) }
pub open spec fn wrap_u(x: int, m: int) -> int { if 0 <= x < m { x } else { x % m } }
pub open spec fn wrap_s(x: int, m: int) -> int { if -m <= 2 * x && 2 * x < m { x } else { (x + m / 2) % m - m / 2 } }
pub open spec fn int_u64(x: int) -> u64 { (x % 0x1_0000_0000_0000_0000) as u64 }
pub open spec fn int_u32(x: int) -> u32 { (x % 0x1_0000_0000) as u32 }
pub open spec fn int_u8(x: int) -> u8 { (x % 0x100) as u8 }
pub open spec fn u64_int(x: u64) -> int {
    if x < 0x8000_0000_0000_0000u64 { x as int } else { x as int - 0x1_0000_0000_0000_0000 }
}

// ---------- floats: NaN, or a number of an ordered field we only compare ----------
pub enum F { NaN, Num(int) }
pub open spec fn f_num(a: F) -> int { match a { F::NaN => 0, F::Num(x) => x } }
pub open spec fn f_nan(a: F) -> bool { match a { F::NaN => true, F::Num(x) => false } }
pub open spec fn f_eq(a: F, b: F) -> bool { !f_nan(a) && !f_nan(b) && f_num(a) == f_num(b) }
pub open spec fn f_lt(a: F, b: F) -> bool { !f_nan(a) && !f_nan(b) && f_num(a) < f_num(b) }
pub open spec fn f_le(a: F, b: F) -> bool { !f_nan(a) && !f_nan(b) && f_num(a) <= f_num(b) }
// arithmetic on floats is uninterpreted
pub uninterp spec fn f_int(x: int) -> F;
pub uninterp spec fn f_rat(n: int, d: int) -> F;
pub uninterp spec fn f_trunc(x: F) -> int;
pub uninterp spec fn f_add(a: F, b: F) -> F;
pub uninterp spec fn f_sub(a: F, b: F) -> F;
pub uninterp spec fn f_mul(a: F, b: F) -> F;
pub uninterp spec fn f_div(a: F, b: F) -> F;
pub struct C { pub re: F, pub im: F }
pub open spec fn c_eq(a: C, b: C) -> bool { f_eq(a.re, b.re) && f_eq(a.im, b.im) }

// ---------- strings: byte sequences in lexicographic order ----------
pub open spec fn str_lt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false }
    else if a.len() == 0 { true }
    else if a[0] < b[0] { true }
    else if a[0] > b[0] { false }
    else { str_lt(a.skip(1), b.skip(1)) }
}
pub open spec fn str_le(a: Seq<u8>, b: Seq<u8>) -> bool { !str_lt(b, a) }

// ---------- generic instantiation: injections of concrete values into element values ----------
pub uninterp spec fn val_int(x: int) -> Val;
pub uninterp spec fn val_bool(x: bool) -> Val;
pub uninterp spec fn val_u64(x: u64) -> Val;
pub uninterp spec fn val_u32(x: u32) -> Val;
pub uninterp spec fn val_u8(x: u8) -> Val;
pub uninterp spec fn val_str(x: Seq<u8>) -> Val;
pub uninterp spec fn val_slice(x: Slice) -> Val;
pub uninterp spec fn val_f(x: F) -> Val;
pub uninterp spec fn val_c(x: C) -> Val;
pub uninterp spec fn unval_int(v: Val) -> int;
pub uninterp spec fn unval_bool(v: Val) -> bool;
pub uninterp spec fn unval_u64(v: Val) -> u64;
pub uninterp spec fn unval_u32(v: Val) -> u32;
pub uninterp spec fn unval_u8(v: Val) -> u8;
pub uninterp spec fn unval_str(v: Val) -> Seq<u8>;
pub uninterp spec fn unval_slice(v: Val) -> Slice;
pub uninterp spec fn unval_f(v: Val) -> F;
pub uninterp spec fn unval_c(v: Val) -> C;
pub broadcast axiom fn ax_val_int(x: int) ensures unval_int(#[trigger] val_int(x)) == x;
pub broadcast axiom fn ax_val_u64(x: u64) ensures unval_u64(#[trigger] val_u64(x)) == x;
pub broadcast axiom fn ax_val_u8(x: u8) ensures unval_u8(#[trigger] val_u8(x)) == x;
pub broadcast axiom fn ax_val_str(x: Seq<u8>) ensures unval_str(#[trigger] val_str(x)) == x;
pub broadcast axiom fn ax_val_bool(x: bool) ensures unval_bool(#[trigger] val_bool(x)) == x;
pub broadcast axiom fn ax_val_slice(x: Slice) ensures unval_slice(#[trigger] val_slice(x)) == x;
pub broadcast group group_val { ax_val_int, ax_val_u64, ax_val_u8, ax_val_str, ax_val_bool }

// ---------- function values ----------
// comparators, predicates and visitors are deterministic functions of their arguments
// (a visitor also of the calls made to it before)
pub uninterp spec fn cmpv(f: int, a: Val, b: Val) -> int;
pub uninterp spec fn predv(f: int, a: Val) -> bool;
pub uninterp spec fn visr(f: int, trace: Seq<(Val, Val)>, k: Val, v: Val) -> bool;
pub open spec fn sgn(x: int) -> int { if x < 0 { -1 } else if x > 0 { 1int } else { 0 } }
// f is a total preorder with a consistent three-way result
pub open spec fn cmp_ok(f: int) -> bool {
    &&& f != 0
    &&& forall|a: Val| #[trigger] cmpv(f, a, a) == 0
    &&& forall|a: Val, b: Val| sgn(#[trigger] cmpv(f, a, b)) == -sgn(cmpv(f, b, a))
    &&& forall|a: Val, b: Val, c: Val| (#[trigger] cmpv(f, a, b)) <= 0 && (#[trigger] cmpv(f, b, c)) <= 0 ==> cmpv(f, a, c) <= 0
}
// how often, and in what state, a visitor is called on a sequence of entries
pub open spec fn vrun(f: int, tr: Seq<(Val, Val)>, s: Seq<(Val, Val)>) -> Seq<(Val, Val)>
    decreases s.len()
{
    if s.len() == 0 { tr }
    else if !visr(f, tr, s[0].0, s[0].1) { tr.push(s[0]) }
    else { vrun(f, tr.push(s[0]), s.skip(1)) }
}
// the visitor accepted all of s
pub open spec fn vall(f: int, tr: Seq<(Val, Val)>, s: Seq<(Val, Val)>) -> bool
    decreases s.len()
{
    s.len() == 0 || (visr(f, tr, s[0].0, s[0].1) && vall(f, tr.push(s[0]), s.skip(1)))
}

// values visited without keys
pub open spec fn keyed(s: Seq<Val>) -> Seq<(Val, Val)> { Seq::new(s.len(), |i: int| (zero_val(), s[i])) }

pub proof fn vrun_at(f: int, tr: Seq<(Val, Val)>, s: Seq<(Val, Val)>, k: int)
    requires 0 <= k <= s.len()
    ensures
        s.skip(0) == s,
        k == s.len() ==> vrun(f, tr, s.skip(k)) == tr,
        k < s.len() ==> vrun(f, tr, s.skip(k)) == (if visr(f, tr, s[k].0, s[k].1) { vrun(f, tr.push(s[k]), s.skip(k + 1)) } else { tr.push(s[k]) }),
{
    assert(s.skip(0) =~= s);
    if k < s.len() { assert(s.skip(k).skip(1) =~= s.skip(k + 1)); }
}

// ---------- dynamic types ----------
pub uninterp spec fn dyn_of(r: int) -> int;

// writes seen through slices
pub broadcast proof fn view_store<T>(m: IMap<int, IMap<int, T>>, s: Slice, a: int, inner: IMap<int, T>, j: int, x: T)
    requires inner == m[a]
    ensures #[trigger] view(m.insert(a, inner.insert(j, x)), s) ==
        (if s.a == a && s.off <= j && j < s.off + s.len { view(m, s).update(j - s.off, x) } else { view(m, s) })
{
    assert(view(m.insert(a, inner.insert(j, x)), s) =~=
        (if s.a == a && s.off <= j && j < s.off + s.len { view(m, s).update(j - s.off, x) } else { view(m, s) }));
}
pub broadcast proof fn view_other<T>(m: IMap<int, IMap<int, T>>, s: Slice, a: int, inner: IMap<int, T>)
    requires s.a != a
    ensures #[trigger] view(m.insert(a, inner), s) == view(m, s)
{
    assert(view(m.insert(a, inner), s) =~= view(m, s));
}
pub broadcast group group_view { view_store, view_other }
// ---------- rings and rounding, for the units that ask for them ----------
pub open spec fn rx(x: int, m: int) -> int { if x < 0 { x + m } else if x < m { x } else { x - m } }
pub broadcast proof fn mod_ring(a: int, m: int)
    ensures m > 0 && 0 <= a && a < 2 * m ==> #[trigger] go_mod(a, m) == (if a < m { a } else { a - m })
{
    if m > 0 && 0 <= a && a < 2 * m {
        if a < m {
            vstd::arithmetic::div_mod::lemma_basic_div(a, m);
            assert(m * 0 == 0) by(nonlinear_arith);
        } else {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, m, 1, a - m);
            assert(m * 1 == m) by(nonlinear_arith);
        }
    }
}
// int(float64(x) * c) >= x for c >= 1: binary64 rounding is monotonic and x is exact below 2^53
pub broadcast axiom fn ax_scale(x: int, n: int, d: int)
    requires 0 < d && d <= n && 0 <= x
    ensures #[trigger] f_trunc(f_mul(f_int(x), f_rat(n, d))) >= x;

} // mod pre
use pre::*;
broadcast use {pre::group_val, pre::group_view};
