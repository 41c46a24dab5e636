// ---- O06: text to value
pub proof fn xt_case(a: Seq<int>, b: Seq<int>)
    requires same_up(a, b)
    ensures xt_int_ok(b, 0) == xt_int_ok(a, 0), xt_int_val(b, 0) == xt_int_val(a, 0)
{ xt_num_case(a, b, 0, 2147483648, true); }
pub open spec fn chars(s: Seq<int>) -> bool { forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> -128 <= s[k] < 128 }
pub broadcast proof fn xt_case_b(a: Seq<int>, b: Seq<int>, n: int)
    requires #[trigger] same_upto(a, b, n), n == a.len(), n == b.len()
    ensures xt_int_ok(b, 0) == xt_int_ok(a, 0), xt_int_val(b, 0) == xt_int_val(a, 0), n > 0 ==> b[0] == c_toupper(a[0])
{ assert forall|k: int| 0 <= k < n implies c_toupper(#[trigger] b[k]) == c_toupper(a[k]) by {} xt_case(a, b); }
pub open spec fn bool_ok(s: Seq<int>) -> bool { s[0] == 84 || s[0] == 116 || s[0] == 70 || s[0] == 102 || xt_int_ok(s, 0) }
pub open spec fn bool_val(s: Seq<int>) -> bool { if s[0] == 84 || s[0] == 116 { true } else if s[0] == 70 || s[0] == 102 { false } else { xt_int_val(s, 0) != 0 } }
