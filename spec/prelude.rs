// ---- machine integers
pub open spec fn pow2(k: int) -> int
    { if k == 8 { 256 } else if k == 16 { 65536 } else if k == 32 { 4294967296 } else { 18446744073709551616 } }
pub open spec fn uw8(x: int) -> int { if 0 <= x < 256 { x } else { x % 256 } }
pub open spec fn uw16(x: int) -> int { if 0 <= x < 65536 { x } else { x % 65536 } }
pub open spec fn uw32(x: int) -> int { if 0 <= x < 4294967296 { x } else { x % 4294967296 } }
pub open spec fn uw64(x: int) -> int { if 0 <= x < 18446744073709551616 { x } else { x % 18446744073709551616 } }
pub open spec fn sw8(x: int) -> int { if -128 <= x < 128 { x } else { (x + 128) % 256 - 128 } }
pub open spec fn sw16(x: int) -> int { if -32768 <= x < 32768 { x } else { (x + 32768) % 65536 - 32768 } }
pub open spec fn sw32(x: int) -> int { if -2147483648 <= x < 2147483648 { x } else { (x + 2147483648) % 4294967296 - 2147483648 } }
pub open spec fn sw64(x: int) -> int { if -9223372036854775808 <= x < 9223372036854775808 { x } else { (x + 9223372036854775808) % 18446744073709551616 - 9223372036854775808 } }
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn tmod(a: int, b: int) -> int { a - b * tdiv(a, b) }
pub uninterp spec fn bit_and(a: int, b: int) -> int;
pub uninterp spec fn bit_or(a: int, b: int) -> int;
pub uninterp spec fn bit_xor(a: int, b: int) -> int;
pub uninterp spec fn bit_shl(a: int, b: int) -> int;
pub uninterp spec fn bit_shr(a: int, b: int) -> int;

// ---- characters ("C" locale)
pub open spec fn c_isdigit(c: int) -> bool { 48 <= c <= 57 }
pub open spec fn c_isspace(c: int) -> bool { c == 32 || (9 <= c <= 13) }
pub open spec fn c_isupper(c: int) -> bool { 65 <= c <= 90 }
pub open spec fn c_islower(c: int) -> bool { 97 <= c <= 122 }
pub open spec fn c_isalpha(c: int) -> bool { c_isupper(c) || c_islower(c) }
pub open spec fn c_isalnum(c: int) -> bool { c_isalpha(c) || c_isdigit(c) }
pub open spec fn c_isxdigit(c: int) -> bool { c_isdigit(c) || (65 <= c <= 70) || (97 <= c <= 102) }
pub open spec fn c_ispunct(c: int) -> bool { 33 <= c <= 126 && !c_isalnum(c) }
pub open spec fn c_toupper(c: int) -> int { if 97 <= c <= 122 { c - 32 } else { c } }
pub open spec fn c_tolower(c: int) -> int { if 65 <= c <= 90 { c + 32 } else { c } }

// ---- floating point: IEEE 754 binary64 as its 64 bits.  Sign, classification and comparison are defined on the bits;
// ---- rounding arithmetic and text are uninterpreted
pub struct F64 { pub b: u64 }
/// all bits but the sign
pub open spec fn f64_mag(a: F64) -> int { if a.b >= 0x8000_0000_0000_0000 { a.b - 0x8000_0000_0000_0000 } else { a.b as int } }
#[verifier::opaque]
pub open spec fn f64_signbit(a: F64) -> bool { a.b >= 0x8000_0000_0000_0000 }
#[verifier::opaque]
pub open spec fn f64_isnan(a: F64) -> bool { f64_mag(a) > 0x7ff0_0000_0000_0000 }
#[verifier::opaque]
pub open spec fn f64_isinf(a: F64) -> bool { f64_mag(a) == 0x7ff0_0000_0000_0000 }
#[verifier::opaque]
pub open spec fn f64_isfinite(a: F64) -> bool { f64_mag(a) < 0x7ff0_0000_0000_0000 }
/// order of the non-NaN values (both zeros are 0)
pub open spec fn f64_key(a: F64) -> int { if a.b >= 0x8000_0000_0000_0000 { -f64_mag(a) } else { f64_mag(a) } }
#[verifier::opaque]
pub open spec fn flt(a: F64, b: F64) -> bool { !f64_isnan(a) && !f64_isnan(b) && f64_key(a) < f64_key(b) }
#[verifier::opaque]
pub open spec fn fle(a: F64, b: F64) -> bool { !f64_isnan(a) && !f64_isnan(b) && f64_key(a) <= f64_key(b) }
#[verifier::opaque]
pub open spec fn feq(a: F64, b: F64) -> bool { !f64_isnan(a) && !f64_isnan(b) && f64_key(a) == f64_key(b) }
#[verifier::opaque]
pub open spec fn fneg(a: F64) -> F64 { F64 { b: (if a.b >= 0x8000_0000_0000_0000 { a.b - 0x8000_0000_0000_0000 } else { a.b + 0x8000_0000_0000_0000 }) as u64 } }
#[verifier::opaque]
pub open spec fn f64_fabs(a: F64) -> F64 { F64 { b: f64_mag(a) as u64 } }
#[verifier::opaque]
pub open spec fn f64_lit(bits: int) -> F64 { F64 { b: bits as u64 } }
pub uninterp spec fn f64_rnd(x: int) -> F64;
#[verifier::opaque]
pub open spec fn f64_of_int(x: int) -> F64 { if x == 0 { f64_lit(0) } else { f64_rnd(x) } }
pub uninterp spec fn f64_to_int(x: F64) -> int;
pub uninterp spec fn fadd(a: F64, b: F64) -> F64;
pub uninterp spec fn fsub(a: F64, b: F64) -> F64;
pub uninterp spec fn fmul(a: F64, b: F64) -> F64;
pub uninterp spec fn fdiv(a: F64, b: F64) -> F64;
/// sanity: the bit definitions agree with IEEE 754 on sample values
proof fn f64_examples()
{
    reveal(f64_isnan); reveal(f64_isinf); reveal(f64_isfinite); reveal(f64_signbit); reveal(flt); reveal(fle); reveal(feq); reveal(fneg); reveal(f64_fabs); reveal(f64_lit); reveal(f64_of_int);
    let one = f64_lit(0x3ff0_0000_0000_0000); let two = f64_lit(0x4000_0000_0000_0000); let inf = f64_lit(0x7ff0_0000_0000_0000); let nan = f64_lit(0x7ff8_0000_0000_0000); let zero = f64_of_int(0);
    assert(flt(one, two) && !flt(two, one) && flt(fneg(two), fneg(one)) && flt(fneg(one), zero) && flt(two, inf) && flt(fneg(inf), fneg(two)));
    assert(feq(zero, fneg(zero)) && !flt(fneg(zero), zero) && fle(fneg(zero), zero) && f64_fabs(fneg(one)) == one && zero != fneg(zero));
    assert(f64_isnan(nan) && f64_isnan(fneg(nan)) && !feq(nan, nan) && !flt(nan, one) && f64_isinf(fneg(inf)) && f64_isfinite(one) && f64_signbit(fneg(zero)));
}
pub uninterp spec fn f64_floor(a: F64) -> F64;
pub uninterp spec fn f64_ceil(a: F64) -> F64;
pub uninterp spec fn f64_trunc(a: F64) -> F64;
pub uninterp spec fn f64_round(a: F64) -> F64;
pub uninterp spec fn f64_frac(a: F64) -> F64;
pub uninterp spec fn f64_pow(a: F64, b: F64) -> F64;
pub uninterp spec fn fmt_double(a: F64, mode: int, prec: int) -> Seq<int>;
pub uninterp spec fn dur_count(a: int) -> int;

/// std::istream::eof() after extraction has stopped at pos: not modelled (any value)
pub uninterp spec fn ss_eof(inp: Seq<int>, pos: int, ok: bool) -> bool;

// ---- strings
/// first index >= i holding a character of d (s.len() if none)
pub open spec fn ffo(s: Seq<int>, d: Seq<int>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() { s.len() as int } else if d.contains(s[i]) { i } else { ffo(s, d, i + 1) } }
pub open spec fn ffno(s: Seq<int>, d: Seq<int>, i: int) -> int
    decreases s.len() - i
{ if i < 0 || i >= s.len() { s.len() as int } else if !d.contains(s[i]) { i } else { ffno(s, d, i + 1) } }
/// last index < lim holding a character of d (-1 if none)
pub open spec fn flo(s: Seq<int>, d: Seq<int>, lim: int) -> int
    decreases lim
{ if lim <= 0 || lim > s.len() { -1 } else if d.contains(s[lim - 1]) { lim - 1 } else { flo(s, d, lim - 1) } }
pub open spec fn flno(s: Seq<int>, d: Seq<int>, lim: int) -> int
    decreases lim
{ if lim <= 0 || lim > s.len() { -1 } else if !d.contains(s[lim - 1]) { lim - 1 } else { flno(s, d, lim - 1) } }
pub uninterp spec fn fsub_(s: Seq<int>, p: Seq<int>, i: int) -> int;
/// lexicographic order of the unsigned bytes
pub open spec fn str_lt(a: Seq<int>, b: Seq<int>) -> bool
    decreases a.len()
{ b.len() > 0 && (a.len() == 0 || uw8(a[0]) < uw8(b[0]) || (a[0] == b[0] && str_lt(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)))) }
pub uninterp spec fn str_cmp(a: Seq<int>, b: Seq<int>) -> int;

// the facts the executor uses about the searches are theorems about these definitions
pub broadcast proof fn seq_whole<A>(s: Seq<A>, n: int)
    requires n == s.len()
    ensures #[trigger] s.subrange(0, n) == s
{ assert(s.subrange(0, n) =~= s); }
pub proof fn search_facts(s: Seq<int>, d: Seq<int>, i: int)
    requires 0 <= i
    ensures
        i <= s.len() ==> i <= ffo(s, d, i) <= s.len(),
        ffo(s, d, i) < s.len() ==> d.contains(s[ffo(s, d, i)]) && i <= ffo(s, d, i),
        forall|k: int| i <= k < ffo(s, d, i) && k < s.len() ==> !d.contains(#[trigger] s[k]),
        i <= s.len() ==> i <= ffno(s, d, i) <= s.len(),
        ffno(s, d, i) < s.len() ==> !d.contains(s[ffno(s, d, i)]) && i <= ffno(s, d, i),
        forall|k: int| i <= k < ffno(s, d, i) && k < s.len() ==> d.contains(#[trigger] s[k]),
    decreases s.len() - i
{ if i < s.len() { search_facts(s, d, i + 1); } }
pub proof fn search_last_facts(s: Seq<int>, d: Seq<int>, l: int)
    requires 0 <= l <= s.len()
    ensures
        -1 <= flo(s, d, l) < l,
        flo(s, d, l) >= 0 ==> d.contains(s[flo(s, d, l)]),
        forall|k: int| flo(s, d, l) < k < l ==> !d.contains(#[trigger] s[k]),
        -1 <= flno(s, d, l) < l,
        flno(s, d, l) >= 0 ==> !d.contains(s[flno(s, d, l)]),
        forall|k: int| flno(s, d, l) < k < l ==> d.contains(#[trigger] s[k]),
    decreases l
{ if l > 0 { search_last_facts(s, d, l - 1); } }

pub open spec fn seq_rep(c: int, n: int) -> Seq<int> { Seq::new(if n > 0 { n as nat } else { 0 }, |k: int| c) }
/// what operator<< writes for text t in a field of width w with this fill (left / right adjusted)
pub open spec fn padl(t: Seq<int>, w: int, fill: int) -> Seq<int> { t + seq_rep(fill, w - t.len()) }
pub open spec fn padr(t: Seq<int>, w: int, fill: int) -> Seq<int> { seq_rep(fill, w - t.len()) + t }

// ---- numbers as text
pub open spec fn dec_nat(n: int) -> Seq<int>
    decreases n
{ if n < 10 { seq![48 + n] } else { dec_nat(n / 10).push(48 + n % 10) } }
pub open spec fn dec_int(n: int) -> Seq<int> { if n < 0 { seq![45int] + dec_nat(-n) } else { dec_nat(n) } }
pub open spec fn hexdig(d: int, up: bool) -> int { if d < 10 { 48 + d } else if up { 55 + d } else { 87 + d } }
pub open spec fn hex_nat(n: int, up: bool) -> Seq<int>
    decreases n
{ if n < 16 { seq![hexdig(n, up)] } else { hex_nat(n / 16, up).push(hexdig(n % 16, up)) } }
pub open spec fn oct_nat(n: int) -> Seq<int>
    decreases n
{ if n < 8 { seq![48 + n] } else { oct_nat(n / 8).push(48 + n % 8) } }

// ---- ordered map iteration
pub uninterp spec fn map_keys_int(d: Set<int>) -> Seq<int>;
pub open spec fn map_keys_ok_int(d: Set<int>, ks: Seq<int>) -> bool
{ ks.no_duplicates() && (forall|k: int| #![trigger d.contains(k)] #![trigger ks.contains(k)] d.contains(k) <==> ks.contains(k)) }
pub uninterp spec fn map_keys_Seq_int_(d: Set<Seq<int>>) -> Seq<Seq<int>>;
pub open spec fn map_keys_ok_Seq_int_(d: Set<Seq<int>>, ks: Seq<Seq<int>>) -> bool
{ ks.no_duplicates() && (forall|k: Seq<int>| #![trigger d.contains(k)] #![trigger ks.contains(k)] d.contains(k) <==> ks.contains(k)) }
