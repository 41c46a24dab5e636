// ---- text to integer, as std::istream >> does it in the "C" locale with the default (decimal, skipws) flags
/// first character at or after i that is not white space
pub open spec fn xt_ws(s: Seq<int>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() || !c_isspace(s[i]) { i } else { xt_ws(s, i + 1) } }
pub open spec fn xt_sign(s: Seq<int>, i: int) -> bool { 0 <= i < s.len() && (s[i] == 43 || s[i] == 45) }
/// first character at or after i that is not a digit
pub open spec fn xt_end(s: Seq<int>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() || !c_isdigit(s[i]) { i } else { xt_end(s, i + 1) } }
/// value of the digits s[a..b)
pub open spec fn xt_digits(s: Seq<int>, a: int, b: int) -> int
    decreases b - a
{ if a < 0 || b > s.len() || b <= a { 0 } else { 10 * xt_digits(s, a, b - 1) + (s[b - 1] - 48) } }
pub open spec fn xt_start(s: Seq<int>, p: int) -> int { let q = xt_ws(s, p); if xt_sign(s, q) { q + 1 } else { q } }
pub open spec fn xt_neg(s: Seq<int>, p: int) -> bool { let q = xt_ws(s, p); xt_sign(s, q) && s[q] == 45 }
pub open spec fn xt_mag(s: Seq<int>, p: int) -> int { let a = xt_start(s, p); xt_digits(s, a, xt_end(s, a)) }
pub open spec fn xt_any(s: Seq<int>, p: int) -> bool { let a = xt_start(s, p); xt_end(s, a) > a }
/// there are digits and the number fits (a negative number read into an unsigned type wraps)
#[verifier::opaque]
pub open spec fn xt_num_ok(s: Seq<int>, p: int, half: int, sg: bool) -> bool
{ xt_any(s, p) && (if !sg { xt_mag(s, p) < 2 * half } else if xt_neg(s, p) { xt_mag(s, p) <= half } else { xt_mag(s, p) < half }) }
#[verifier::opaque]
pub open spec fn xt_num_val(s: Seq<int>, p: int, half: int, sg: bool) -> int
{ if !xt_num_ok(s, p, half, sg) { 0 } else if !xt_neg(s, p) || xt_mag(s, p) == 0 { xt_mag(s, p) } else if sg { -xt_mag(s, p) } else { 2 * half - xt_mag(s, p) } }
/// the value is in the range of the type
pub proof fn xt_num_range(s: Seq<int>, p: int, half: int, sg: bool)
    requires half > 0
    ensures sg ==> -half <= xt_num_val(s, p, half, sg) < half, !sg ==> 0 <= xt_num_val(s, p, half, sg) < 2 * half
{ reveal(xt_num_val); reveal(xt_num_ok); let a = xt_start(s, p); xt_digits_nat(s, a, xt_end(s, a)); }
pub proof fn xt_end_digit(s: Seq<int>, i: int, k: int)
    ensures 0 <= i <= k < xt_end(s, i) ==> 0 <= k < s.len() && c_isdigit(s[k])
    decreases s.len() - i
{ if !(i < 0 || i >= s.len() || !c_isdigit(s[i])) { xt_end_digit(s, i + 1, k); } }
pub proof fn xt_digits_nat(s: Seq<int>, a: int, b: int)
    requires b <= xt_end(s, a)
    ensures xt_digits(s, a, b) >= 0
    decreases b - a
{ if !(a < 0 || b > s.len() || b <= a) { xt_end_digit(s, a, b - 1); xt_digits_nat(s, a, b - 1); assert(c_isdigit(s[b - 1])); } }
// -- extraction does not look at letters, so their case does not matter
pub open spec fn same_up(a: Seq<int>, b: Seq<int>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> c_toupper(#[trigger] b[k]) == c_toupper(a[k]) }
pub proof fn xt_ws_case(a: Seq<int>, b: Seq<int>, i: int)
    requires same_up(a, b)
    ensures xt_ws(b, i) == xt_ws(a, i)
    decreases a.len() - i
{ if 0 <= i < a.len() { assert(c_toupper(b[i]) == c_toupper(a[i])); xt_ws_case(a, b, i + 1); } }
pub proof fn xt_end_case(a: Seq<int>, b: Seq<int>, i: int)
    requires same_up(a, b)
    ensures xt_end(b, i) == xt_end(a, i)
    decreases a.len() - i
{ if 0 <= i < a.len() { assert(c_toupper(b[i]) == c_toupper(a[i])); xt_end_case(a, b, i + 1); } }
pub proof fn xt_digits_case(a: Seq<int>, b: Seq<int>, i: int, j: int)
    requires same_up(a, b), 0 <= i, j <= xt_end(a, i)
    ensures xt_digits(b, i, j) == xt_digits(a, i, j)
    decreases j - i
{ if i < j && j <= a.len() { xt_end_digit(a, i, j - 1); assert(c_isdigit(a[j - 1])); assert(c_toupper(b[j - 1]) == c_toupper(a[j - 1])); xt_digits_case(a, b, i, j - 1); } }
pub proof fn xt_num_case(a: Seq<int>, b: Seq<int>, p: int, half: int, sg: bool)
    requires same_up(a, b), 0 <= p
    ensures xt_num_ok(b, p, half, sg) == xt_num_ok(a, p, half, sg), xt_num_val(b, p, half, sg) == xt_num_val(a, p, half, sg)
{
    reveal(xt_num_ok); reveal(xt_num_val);
    xt_ws_case(a, b, p);
    let q = xt_ws(a, p); xt_ws_ge(a, p);
    if 0 <= q < a.len() { assert(c_toupper(b[q]) == c_toupper(a[q])); }
    let i = xt_start(a, p);
    xt_end_case(a, b, i); xt_digits_case(a, b, i, xt_end(a, i));
}
pub proof fn xt_ws_ge(s: Seq<int>, i: int)
    ensures i <= xt_ws(s, i)
    decreases s.len() - i
{ if !(i < 0 || i >= s.len() || !c_isspace(s[i])) { xt_ws_ge(s, i + 1); } }
pub open spec fn same_upto(a: Seq<int>, b: Seq<int>, n: int) -> bool { 0 <= n <= a.len() && n <= b.len() && forall|k: int| 0 <= k < n ==> #[trigger] b[k] == c_toupper(a[k]) }
/// sanity: the definition on concrete texts
proof fn xt_examples()
{
    reveal(xt_num_ok); reveal(xt_num_val);
    reveal_with_fuel(xt_ws, 4); reveal_with_fuel(xt_end, 5); reveal_with_fuel(xt_digits, 5);
    assert(xt_num_val(seq![32int, 45, 49, 50, 120], 0, 2147483648, true) == -12);
    assert(xt_num_val(seq![45int, 49], 0, 2147483648, false) == 4294967295);
    assert(!xt_num_ok(seq![45int, 120], 0, 2147483648, true));
    assert(xt_num_ok(seq![49int, 50, 55], 0, 128, true) && !xt_num_ok(seq![49int, 50, 56], 0, 128, true));
}
