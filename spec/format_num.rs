// ---- C03 / C04: grouping.  r is the reversed text; the first k characters of r are the last k of the text
pub open spec fn grp(r: Seq<int>, k: int, sep: int, g: int, lim: int) -> Seq<int>
    decreases k
{
    if k <= 0 || k > r.len() { Seq::empty() }
    else { seq![r[k - 1]] + (if k - 1 > 0 && gbreak(k - 1, g) && k - 1 < lim { seq![sep] } else { Seq::empty() }) + grp(r, k - 1, sep, g, lim) }
}
/// a separator may stand in front of the last k characters when k is a multiple of g
pub closed spec fn gbreak(k: int, g: int) -> bool { k % g == 0 }
pub open spec fn grouped(s: Seq<int>, sep: int, g: int, lim: int) -> Seq<int> { grp(s.reverse(), s.len() as int, sep, g, lim) }
/// position inside the current group after k characters
pub closed spec fn gpos(k: int, g: int) -> int { if k <= 0 { 0 } else { (k - 1) % g + 1 } }
pub broadcast proof fn gpos_zero(g: int)
    ensures #[trigger] gpos(0, g) == 0
{}
pub broadcast proof fn gpos_brk(k: int, g: int)
    requires 1 <= k, 1 <= g
    ensures (gpos(k, g) == g) == #[trigger] gbreak(k, g)
{ gpos_step(k, g); }
pub broadcast proof fn gpos_range(k: int, g: int)
    requires 0 <= k, 1 <= g
    ensures 0 <= #[trigger] gpos(k, g) <= g
{ if k > 0 { vstd::arithmetic::div_mod::lemma_mod_bound(k - 1, g); } }
pub broadcast proof fn gpos_step(k: int, g: int)
    requires 0 <= k, 1 <= g
    ensures #[trigger] gpos(k + 1, g) == (if k > 0 && gpos(k, g) == g { 1 } else { gpos(k, g) + 1 }), k > 0 ==> (gpos(k, g) == g) == gbreak(k, g), 0 <= gpos(k, g) <= g, gpos(k, g) <= k
{
    if k > 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k - 1, g);
        vstd::arithmetic::div_mod::lemma_mod_bound(k - 1, g);
        let q = (k - 1) / g; let m = (k - 1) % g;
        if m == g - 1 { assert(k == g * (q + 1) + 0) by (nonlinear_arith) requires k - 1 == g * q + m, m == g - 1; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, g, q + 1, 0); }
        else { assert(k == g * q + (m + 1)) by (nonlinear_arith) requires k - 1 == g * q + m; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, g, q, m + 1); }
        vstd::arithmetic::div_mod::lemma_mod_bound(k, g);
        assert(m <= k - 1) by { if k - 1 < g { vstd::arithmetic::div_mod::lemma_small_mod((k - 1) as nat, g as nat); } }
    }
    else { vstd::arithmetic::div_mod::lemma_small_mod(0, g as nat); }
}
/// the separator to put before the last k characters of a text of n, if one belongs there
pub open spec fn gsep(k: int, sep: int, g: int, lim: int, n: int) -> Seq<int> { if 0 < k < n && gbreak(k, g) && k < lim { seq![sep] } else { Seq::empty() } }
pub broadcast proof fn gbreak_mod(k: int, g: int)
    ensures #[trigger] gbreak(k, g) == (k % g == 0)
{}
pub broadcast proof fn rev_rev(s: Seq<int>)
    ensures #[trigger] s.reverse().reverse() == s
{ assert(s.reverse().reverse() =~= s); }
/// the text e with separators inserted every three characters from the end, down to position q
pub open spec fn gins(e: Seq<int>, q: int, sep: int, lim: int) -> Seq<int>
{ if q >= e.len() { e } else { e.subrange(0, q) + seq![sep] + grp(e.reverse(), e.len() - q, sep, 3, lim) } }
pub proof fn gmul_break(k: int)
    requires gmul(k)
    ensures gbreak(k, 3), !gbreak(k + 1, 3), !gbreak(k + 2, 3), gbreak(k + 3, 3), gmul(k + 3), gmul(k - 3), gmul(0)
{}
pub broadcast proof fn gmul_zero(k: int)
    requires k == 0
    ensures #[trigger] gmul(k)
{}
pub broadcast proof fn gmul_next(k: int)
    ensures #[trigger] gmul(k + 3) == gmul(k)
{}
pub proof fn grp_one(r: Seq<int>, k: int, sep: int, lim: int)
    requires 0 < k <= r.len()
    ensures grp(r, k, sep, 3, lim) == seq![r[k - 1]] + (if k - 1 > 0 && gbreak(k - 1, 3) && k - 1 < lim { seq![sep] } else { Seq::empty() }) + grp(r, k - 1, sep, 3, lim)
{}
pub proof fn gins_step(e: Seq<int>, q: int, sep: int, lim: int)
    ensures
        gmul(e.len() - q) ==> gmul(e.len() - (q - 3)),
        gmul(e.len() - q) && 3 <= q <= e.len() && e.len() - lim < q - 3 ==> gins(e, q - 3, sep, lim) == e.subrange(0, q - 3) + seq![sep] + e.subrange(q - 3, q) + (if q < e.len() { seq![sep] + grp(e.reverse(), e.len() - q, sep, 3, lim) } else { Seq::empty() }),
        gmul(e.len() - q) && 0 < q <= e.len() && 0 <= e.len() - lim <= 1 && e.len() - lim < q <= e.len() - lim + 3 ==> gins(e, q, sep, lim) == grp(e.reverse(), e.len() as int, sep, 3, lim)
{
    let n = e.len() as int; let r = e.reverse(); let k = n - q;
    if gmul(k) { gmul_break(k); assert(n - (q - 3) == k + 3); }
    if gmul(k) && 0 < q <= n && e.len() - lim < q {
        gmul_break(k);
        assert(forall|j: int| 0 <= j < n ==> r[j] == #[trigger] e[n - 1 - j]);
        grp_one(r, k + 1, sep, lim);
        assert(grp(r, k + 1, sep, 3, lim) =~= seq![e[q - 1]] + (if q < n { seq![sep] } else { Seq::empty() }) + grp(r, k, sep, 3, lim)) by { assert(k < lim); }
        if q >= 2 { grp_one(r, k + 2, sep, lim); }
        if q >= 3 { grp_one(r, k + 3, sep, lim); }
        if q >= 3 && e.len() - lim < q - 3 {
            assert(grp(r, k + 3, sep, 3, lim) =~= e.subrange(q - 3, q) + (if q < n { seq![sep] + grp(r, k, sep, 3, lim) } else { Seq::empty() }));
            assert(gins(e, q - 3, sep, lim) =~= e.subrange(0, q - 3) + seq![sep] + e.subrange(q - 3, q) + (if q < n { seq![sep] + grp(r, k, sep, 3, lim) } else { Seq::empty() }));
        }
        if 0 <= n - lim <= 1 && q <= n - lim + 3 {
            if q >= 4 { grp_one(r, k + 4, sep, lim); }
            assert(gins(e, q, sep, lim) =~= grp(r, n, sep, 3, lim));
        }
    }
}
/// a negative number's digits, its sign last
pub proof fn dec_neg(v: int)
    ensures v < 0 ==> dec_nat(-v).reverse().push(45) =~= dec_int(v).reverse(), forall|k: int| 0 <= k < dec_int(v).len() ==> (#[trigger] dec_int(v)[k] == 45 <==> (v < 0 && k == 0))
{ dec_digits(if v < 0 { -v } else { v }); }
pub closed spec fn gmul(k: int) -> bool { k % 3 == 0 }
pub proof fn ggo(k: int, g: int, k2: int)
    ensures k >= 0 && g >= 1 && k2 == k + 1 ==> gpos(k2, g) == (if k > 0 && gpos(k, g) == g { 1 } else { gpos(k, g) + 1 }) && (k > 0 ==> (gpos(k, g) == g) == gbreak(k, g)) && 0 <= gpos(k, g) <= g && gpos(k, g) <= k
{ if k >= 0 && g >= 1 && k2 == k + 1 { gpos_step(k, g); } }
pub open spec fn spec_addI(v: int, w: int, sep: int, fill: int) -> Seq<int>
{
    let t = if sep == 0 { dec_int(v) } else { grouped(dec_int(v), sep, 3, dec_int(v).len() - (if v < 0 { 1int } else { 0int })) };
    padr(t, w, if fill == 0 { 32 } else { fill })
}
pub proof fn dec_digits(n: int)
    requires n >= 0
    ensures dec_nat(n).len() >= 1, forall|k: int| 0 <= k < dec_nat(n).len() ==> 48 <= #[trigger] dec_nat(n)[k] <= 57,
        n < 10 ==> dec_nat(n).len() == 1
    decreases n
{ if n >= 10 { dec_digits(n / 10); } }
pub proof fn dec_len(n: int, d: nat)
    requires 0 <= n < pow10(d), d >= 1
    ensures dec_nat(n).len() <= d
    decreases d
{ if n >= 10 { if d == 1 { assert(pow10(1) == 10 * pow10(0)); } else { assert(n / 10 < pow10((d - 1) as nat)); dec_len(n / 10, (d - 1) as nat); } } }
pub open spec fn pow10(d: nat) -> int
    decreases d
{ if d == 0 { 1 } else { 10 * pow10((d - 1) as nat) } }
pub proof fn pow10_vals()
    ensures pow10(10) == 10000000000, pow10(20) == 100000000000000000000
{ reveal_with_fuel(pow10, 21); }
pub proof fn addI_facts(v: int)
    ensures -2147483648 <= v <= 2147483647 ==> dec_int(v).len() <= 11
{ if -2147483648 <= v <= 2147483647 { pow10_vals(); if v < 0 { dec_len(-v, 10); } else { dec_len(v, 10); } } }
/// the sign is the last character of the reversed text and no other
pub proof fn dec_sign(v: int, r: Seq<int>)
    ensures r == dec_int(v).reverse() ==> r.len() >= 1 && forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k] == 45 <==> (v < 0 && k == r.len() - 1))
{
    if r == dec_int(v).reverse() {
        dec_digits(if v < 0 { -v } else { v });
        let s = dec_int(v);
        assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k] == 45 <==> (v < 0 && k == r.len() - 1)) by {
            assert(r[k] == s[s.len() - 1 - k]);
            if v < 0 && k < r.len() - 1 { assert(s[s.len() - 1 - k] == dec_nat(-v)[s.len() - 2 - k]); }
        }
    }
}
pub open spec fn spec_num(v: int, f: int, w: int) -> Seq<int>
{
    if f == 120 || f == 104 { seq![48int, 120int] + padr(hex_nat(v, false), w, 48) }
    else if f == 88 || f == 72 { seq![48int, 120int] + padr(hex_nat(v, true), w, 48) }
    else if f == 111 || f == 79 { padr(if v == 0 { oct_nat(v) } else { seq![48int] + oct_nat(v) }, w, 48) }
    else { padr(dec_nat(v), w, 32) }
}
pub open spec fn num_prefix(f: int) -> int { if f == 120 || f == 104 || f == 88 || f == 72 { 2 } else if f == 111 || f == 79 { 1 } else { 0 } }
pub open spec fn spec_addU(v: int, f: int, w: int, sep: int, g: int) -> Seq<int>
{ let t = spec_num(v, f, w); if sep == 0 { t } else { grouped(t, sep, g, t.len() - num_prefix(f)) } }
pub proof fn num_len(v: int)
    ensures 0 <= v < 18446744073709551616 ==> dec_nat(v).len() <= 20 && 1 <= hex_nat(v, true).len() <= 64 && 1 <= hex_nat(v, false).len() <= 64 && 1 <= oct_nat(v).len() <= 64
{ if 0 <= v < 18446744073709551616 { pow10_vals(); dec_len(v, 20); p2v(); hex_len(v, true, 64); hex_len(v, false, 64); oct_len(v, 64); } }
pub open spec fn p2(d: nat) -> int
    decreases d
{ if d == 0 { 1 } else { 2 * p2((d - 1) as nat) } }
pub proof fn p2v()
    ensures p2(64) == 18446744073709551616
{ reveal_with_fuel(p2, 65); }
pub proof fn hex_len(n: int, up: bool, d: nat)
    requires 0 <= n < p2(d), d >= 1
    ensures 1 <= hex_nat(n, up).len() <= d
    decreases d
{ if n >= 16 { if d == 1 { assert(p2(1) == 2 * p2(0)); } else { assert(n / 16 < p2((d - 1) as nat)); hex_len(n / 16, up, (d - 1) as nat); } } }
pub proof fn oct_len(n: int, d: nat)
    requires 0 <= n < p2(d), d >= 1
    ensures 1 <= oct_nat(n).len() <= d
    decreases d
{ if n >= 8 { if d == 1 { assert(p2(1) == 2 * p2(0)); } else { assert(n / 8 < p2((d - 1) as nat)); oct_len(n / 8, (d - 1) as nat); } } }
pub open spec fn spec_addS(v: Seq<int>, w: int) -> Seq<int>
{ if w < 0 { padl(v, -w, 32) } else { padr(v, w, 32) } }

// ---- C05: floating point
pub broadcast proof fn nan_neg(v: F64)
    ensures #[trigger] f64_isnan(fneg(v)) == f64_isnan(v)
{ reveal(f64_isnan); reveal(fneg); }
pub proof fn zero_lit()
    ensures f64_of_int(0) == f64_lit(0)
{ reveal(f64_of_int); }
pub open spec fn fneg_p(v: F64) -> bool { flt(v, f64_of_int(0)) }
pub open spec fn spec_addF(v: F64, mode: int, w: int, d: int) -> Seq<int>
{
    let ww = if w == 0 { d + 4 } else { w };
    padl(if f64_isnan(v) { seq![110int, 97, 110] } else if f64_isinf(v) { if fneg_p(v) { seq![45int, 105, 110, 102] } else { seq![105int, 110, 102] } } else { fmt_double(v, mode, d) }, ww, 32)
}
// ---- C07: engineering notation.  The digits come from these (uninterpreted) functions of |v| and D
pub uninterp spec fn log1k_ret(a: F64, d: int) -> int;
pub uninterp spec fn log1k_norm(a: F64, d: int) -> F64;
pub uninterp spec fn fr_int(n: F64, d: int) -> int;
pub uninterp spec fn fr_frac(n: F64, d: int) -> int;
pub uninterp spec fn fr_iw(n: F64, d: int) -> int;
pub uninterp spec fn fr_fw(n: F64, d: int) -> int;
pub open spec fn spec_addE_tail(a: F64, w: int, d: int, sep: int) -> Seq<int>
{
    let e = log1k_ret(a, d); let n = log1k_norm(a, d); let iw = fr_iw(n, d); let fw = fr_fw(n, d);
    padl(dec_int(fr_int(n, d)), iw, 32) + (if fw > 0 { seq![sep] + padr(dec_int(fr_frac(n, d)), fw, 48) } else { Seq::<int>::empty() })
        + seq![101int] + (if e < 0 { seq![45int] + padl(dec_int(-e), 2, 32) } else { seq![43int] + padl(dec_int(e), 2, 32) })
        + seq_rep(32, w - (iw + fw + 4))
}
pub open spec fn spec_addE(v: F64, w: int, d: int, sep: int) -> Seq<int>
{
    let ww = if w == 0 { d + 4 } else { w };
    if feq(v, f64_lit(0)) { seq![48int, sep] + padl(seq![48int], d - 1, 48) + seq![101int, 48] }
    else { seq![if fneg_p(v) { 45int } else { 32int }] + spec_addE_tail(f64_fabs(v), ww, d, sep) }
}
/// the two renderings of a nonzero value and its negation differ only in the first character
pub proof fn neg_facts(v: F64)
    ensures f64_fabs(fneg(v)) == f64_fabs(v), feq(fneg(v), f64_lit(0)) == feq(v, f64_lit(0))
{ reveal(f64_fabs); reveal(fneg); reveal(feq); reveal(f64_lit); reveal(f64_isnan); }
pub proof fn thm_negation(v: F64, w: int, d: int, sep: int)
    ensures spec_addE(v, w, d, sep).subrange(1, spec_addE(v, w, d, sep).len() as int) == spec_addE(fneg(v), w, d, sep).subrange(1, spec_addE(fneg(v), w, d, sep).len() as int)
{
    neg_facts(v);
    assert(spec_addE(v, w, d, sep).subrange(1, spec_addE(v, w, d, sep).len() as int) =~= spec_addE(fneg(v), w, d, sep).subrange(1, spec_addE(fneg(v), w, d, sep).len() as int));
}
/// the field is at least as wide as requested
pub proof fn thm_width(v: F64, w: int, d: int, sep: int)
    requires !feq(v, f64_lit(0)), w > 0, fr_iw(log1k_norm(f64_fabs(v), d), d) >= 0, fr_fw(log1k_norm(f64_fabs(v), d), d) >= 0
    ensures spec_addE(v, w, d, sep).len() >= w, spec_addE(v, w, d, sep)[0] == (if fneg_p(v) { 45int } else { 32int })
{}

// ---- the usual ways of asking what a double is, all in terms of isnan / isinf / flt
pub broadcast proof fn feq_nan(a: F64, b: F64)
    ensures a == b ==> #[trigger] feq(a, b) == !f64_isnan(a)
{ reveal(feq); reveal(f64_isnan); }
pub broadcast proof fn flt_sym(a: F64, b: F64)
    ensures !f64_isnan(a) && !f64_isnan(b) ==> (#[trigger] flt(a, b) == !fle(b, a)), f64_isnan(a) || f64_isnan(b) ==> !flt(a, b)
{ reveal(flt); reveal(fle); reveal(f64_isnan); }
pub broadcast proof fn sign_inf(a: F64)
    ensures f64_isinf(a) ==> (#[trigger] f64_signbit(a) == flt(a, f64_of_int(0))) && f64_signbit(a) == !flt(f64_of_int(0), a), f64_isinf(a) ==> !f64_isnan(a)
{ reveal(f64_signbit); reveal(flt); reveal(f64_isinf); reveal(f64_isnan); reveal(f64_of_int); reveal(f64_lit); }
pub broadcast proof fn pos_inf(a: F64)
    ensures f64_isinf(a) ==> (#[trigger] flt(f64_of_int(0), a) == !flt(a, f64_of_int(0)))
{ reveal(f64_signbit); reveal(flt); reveal(f64_isinf); reveal(f64_isnan); reveal(f64_of_int); reveal(f64_lit); }
pub broadcast proof fn finite_is(a: F64)
    ensures #[trigger] f64_isfinite(a) == (!f64_isnan(a) && !f64_isinf(a))
{ reveal(f64_isfinite); reveal(f64_isinf); reveal(f64_isnan); }
pub broadcast proof fn inf_not_nan(a: F64)
    ensures #[trigger] f64_isinf(a) ==> !f64_isnan(a)
{ reveal(f64_isinf); reveal(f64_isnan); }
