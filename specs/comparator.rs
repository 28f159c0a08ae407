// == and < on a type argument are those of the type
pub mod val_ord {
use super::pre::*;
use super::*;
pub broadcast axiom fn ax_eq_int(a: int, b: int) ensures (#[trigger] val_eq(val_int(a), val_int(b))) == (a == b);
pub broadcast axiom fn ax_lt_int(a: int, b: int) ensures (#[trigger] val_lt(val_int(a), val_int(b))) == (a < b);
pub broadcast axiom fn ax_le_int(a: int, b: int) ensures (#[trigger] val_le(val_int(a), val_int(b))) == (a <= b);
pub broadcast axiom fn ax_eq_u64(a: u64, b: u64) ensures (#[trigger] val_eq(val_u64(a), val_u64(b))) == (a == b);
pub broadcast axiom fn ax_lt_u64(a: u64, b: u64) ensures (#[trigger] val_lt(val_u64(a), val_u64(b))) == (a < b);
pub broadcast axiom fn ax_le_u64(a: u64, b: u64) ensures (#[trigger] val_le(val_u64(a), val_u64(b))) == (a <= b);
pub broadcast axiom fn ax_eq_u8(a: u8, b: u8) ensures (#[trigger] val_eq(val_u8(a), val_u8(b))) == (a == b);
pub broadcast axiom fn ax_lt_u8(a: u8, b: u8) ensures (#[trigger] val_lt(val_u8(a), val_u8(b))) == (a < b);
pub broadcast axiom fn ax_le_u8(a: u8, b: u8) ensures (#[trigger] val_le(val_u8(a), val_u8(b))) == (a <= b);
pub broadcast axiom fn ax_eq_u32(a: u32, b: u32) ensures (#[trigger] val_eq(val_u32(a), val_u32(b))) == (a == b);
pub broadcast axiom fn ax_lt_u32(a: u32, b: u32) ensures (#[trigger] val_lt(val_u32(a), val_u32(b))) == (a < b);
pub broadcast axiom fn ax_le_u32(a: u32, b: u32) ensures (#[trigger] val_le(val_u32(a), val_u32(b))) == (a <= b);
pub broadcast axiom fn ax_eq_str(a: Seq<u8>, b: Seq<u8>) ensures (#[trigger] val_eq(val_str(a), val_str(b))) == (a =~= b);
pub broadcast axiom fn ax_lt_str(a: Seq<u8>, b: Seq<u8>) ensures (#[trigger] val_lt(val_str(a), val_str(b))) == str_lt(a, b);
pub broadcast axiom fn ax_le_str(a: Seq<u8>, b: Seq<u8>) ensures (#[trigger] val_le(val_str(a), val_str(b))) == str_le(a, b);
pub broadcast group group_val_ord { ax_eq_int, ax_lt_int, ax_le_int, ax_eq_u64, ax_lt_u64, ax_le_u64, ax_eq_u8, ax_lt_u8, ax_le_u8, ax_eq_u32, ax_lt_u32, ax_le_u32, ax_eq_str, ax_lt_str, ax_le_str }
}
// what Go guarantees for == and < on ordered types other than NaN
pub open spec fn val_tri(a: Val, b: Val) -> bool {
    &&& val_eq(a, b) == val_eq(b, a)
    &&& (val_eq(a, b) || val_lt(a, b) || val_lt(b, a))
    &&& !(val_eq(a, b) && val_lt(a, b)) && !(val_eq(a, b) && val_lt(b, a)) && !(val_lt(a, b) && val_lt(b, a))
    &&& val_le(a, b) == !val_lt(b, a) && val_le(b, a) == !val_lt(a, b)
}
// NaN equals NaN and is below every number
pub open spec fn fl_lt(a: F, b: F) -> bool { !f_nan(b) && (f_nan(a) || f_num(a) < f_num(b)) }
pub open spec fn cx_lt(a: C, b: C) -> bool { f_num(a.re) < f_num(b.re) || (f_num(a.re) == f_num(b.re) && f_num(a.im) < f_num(b.im)) }

proof fn str_order(a: Seq<u8>, b: Seq<u8>)
    ensures
        (a =~= b) || str_lt(a, b) || str_lt(b, a),
        !(str_lt(a, b) && str_lt(b, a)),
        a =~= b ==> !str_lt(a, b) && !str_lt(b, a),
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        str_order(a.skip(1), b.skip(1));
        if a[0] == b[0] && a.skip(1) =~= b.skip(1) {
            assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
                if i > 0 { assert(a.skip(1)[i - 1] == b.skip(1)[i - 1]); }
            }
            assert(a.len() == b.len());
            assert(a =~= b);
        }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
proof fn str_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires str_lt(a, b), str_lt(b, c)
    ensures str_lt(a, c)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        if a[0] == b[0] && b[0] == c[0] { str_trans(a.skip(1), b.skip(1), c.skip(1)); }
    }
}
// the orders are total: transitivity (totality and antisymmetry are in the postconditions)
proof fn fl_trans(a: F, b: F, c: F) requires fl_lt(a, b), fl_lt(b, c) ensures fl_lt(a, c) {}
proof fn cx_trans(a: C, b: C, c: C) requires cx_lt(a, b), cx_lt(b, c) ensures cx_lt(a, c) {}
