// ---- C01/C02: the format string as a sequence of atoms (a character, or a marker with a number)
#[verifier::ext_equal]
pub struct Atom { pub fld: bool, pub n: int }
pub open spec fn lits(s: Seq<int>) -> Seq<Atom> { Seq::new(s.len(), |k: int| Atom { fld: false, n: s[k] }) }
pub open spec fn lit1(c: int) -> Seq<Atom> { seq![Atom { fld: false, n: c }] }
pub open spec fn fld1(n: int) -> Seq<Atom> { seq![Atom { fld: true, n: n }] }
/// the left-to-right scan: st 0 = plain text, 1 = after '%', 2 = in the digits of a marker
pub open spec fn scan_go(s: Seq<int>, i: int, st: int, num: int, acc: Seq<Atom>) -> Seq<Atom>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() {
        if st == 0 { acc } else if st == 1 { acc + lit1(37) } else { acc + fld1(num) }
    } else if st == 0 {
        if s[i] == 37 { scan_go(s, i + 1, 1, num, acc) } else { scan_go(s, i + 1, 0, num, acc + lit1(s[i])) }
    } else if st == 1 {
        if c_isdigit(s[i]) { scan_go(s, i + 1, 2, s[i] - 48, acc) }
        else if s[i] == 37 { scan_go(s, i + 1, 0, num, acc + lit1(37)) }
        else { scan_go(s, i + 1, 0, num, acc + lit1(37) + lit1(s[i])) }
    } else {
        if c_isdigit(s[i]) { scan_go(s, i + 1, 2, uw32(num * 10 + (s[i] - 48)), acc) }
        else if s[i] == 37 { scan_go(s, i + 1, 1, num, acc + fld1(num)) }
        else { scan_go(s, i + 1, 0, num, acc + fld1(num) + lit1(s[i])) }
    }
}
pub open spec fn scan(s: Seq<int>) -> Seq<Atom> { scan_go(s, 0, 0, 0, Seq::empty()) }
/// in plain text the last marker number is irrelevant
pub proof fn scan_num(s: Seq<int>, i: int, st: int, a: int, b: int, acc: Seq<Atom>)
    requires st == 0 || st == 1
    ensures scan_go(s, i, st, a, acc) == scan_go(s, i, st, b, acc)
    decreases s.len() - i
{
    if 0 <= i < s.len() {
        if st == 0 {
            if s[i] == 37 { scan_num(s, i + 1, 1, a, b, acc); } else { scan_num(s, i + 1, 0, a, b, acc + lit1(s[i])); }
        } else if !c_isdigit(s[i]) {
            if s[i] == 37 { scan_num(s, i + 1, 0, a, b, acc + lit1(37)); } else { scan_num(s, i + 1, 0, a, b, acc + lit1(37) + lit1(s[i])); }
        }
    }
}
pub broadcast proof fn uw32_add(a: int, d: int)
    requires 0 <= a, 0 <= d < 10
    ensures #[trigger] uw32(uw32(a) + d) == uw32(a + d)
{ }
pub open spec fn atoms1(g: Format_FmtStringSeg) -> Seq<Atom>
{ if g.seg_type == 0 { lits(g.val) } else if g.seg_type == 1 { fld1(g.idx) } else { Seq::empty() } }
pub open spec fn flat(l: Seq<Format_FmtStringSeg>) -> Seq<Atom>
    decreases l.len()
{ if l.len() == 0 { Seq::empty() } else { flat(l.drop_last()) + atoms1(l.last()) } }
pub broadcast proof fn flat_push(l: Seq<Format_FmtStringSeg>, g: Format_FmtStringSeg)
    ensures #[trigger] flat(l.push(g)) == flat(l) + atoms1(g)
{ assert(l.push(g).drop_last() =~= l); }
pub broadcast proof fn flat_empty()
    ensures #[trigger] flat(Seq::<Format_FmtStringSeg>::empty()) == Seq::<Atom>::empty()
{ }
pub broadcast proof fn lits_push(s: Seq<int>, c: int)
    ensures #[trigger] lits(s.push(c)) == lits(s) + lit1(c)
{ assert(lits(s.push(c)) =~= lits(s) + lit1(c)); }
pub broadcast proof fn lits_empty()
    ensures #[trigger] lits(Seq::<int>::empty()) == Seq::<Atom>::empty()
{ assert(lits(Seq::<int>::empty()) =~= Seq::<Atom>::empty()); }
pub broadcast proof fn lits_len0(s: Seq<int>)
    ensures s.len() == 0 ==> #[trigger] lits(s) == Seq::<Atom>::empty()
{ if s.len() == 0 { assert(lits(s) =~= Seq::<Atom>::empty()); } }
pub broadcast proof fn cat_assoc(a: Seq<Atom>, b: Seq<Atom>, c: Seq<Atom>)
    ensures #[trigger] (a + (b + c)) == a + b + c
{ assert(a + (b + c) =~= a + b + c); }
pub broadcast proof fn cat_empty(a: Seq<Atom>)
    ensures #[trigger] (a + Seq::<Atom>::empty()) == a
{ assert(a + Seq::<Atom>::empty() =~= a); }
pub broadcast proof fn empty_cat(a: Seq<Atom>)
    ensures #[trigger] (Seq::<Atom>::empty() + a) == a
{ assert(Seq::<Atom>::empty() + a =~= a); }

// ---- inserting a value: exactly the markers with this number become its text
pub open spec fn sub1(a: Atom, n: int, s: Seq<int>) -> Seq<Atom> { if a.fld && a.n == n { lits(s) } else { seq![a] } }
pub open spec fn subst(a: Seq<Atom>, n: int, s: Seq<int>) -> Seq<Atom>
    decreases a.len()
{ if a.len() == 0 { Seq::empty() } else { subst(a.drop_last(), n, s) + sub1(a.last(), n, s) } }
pub proof fn subst_cat(a: Seq<Atom>, b: Seq<Atom>, n: int, s: Seq<int>)
    ensures subst(a + b, n, s) == subst(a, n, s) + subst(b, n, s)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(subst(a, n, s) + subst(b, n, s) =~= subst(a, n, s)); }
    else {
        subst_cat(a, b.drop_last(), n, s);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(subst(a, n, s) + subst(b.drop_last(), n, s) + sub1(b.last(), n, s) =~= subst(a, n, s) + (subst(b.drop_last(), n, s) + sub1(b.last(), n, s)));
    }
}
pub broadcast proof fn subst_lits(t: Seq<int>, n: int, s: Seq<int>)
    ensures #[trigger] subst(lits(t), n, s) == lits(t)
    decreases t.len()
{
    if t.len() > 0 {
        assert(lits(t).drop_last() =~= lits(t.drop_last()));
        subst_lits(t.drop_last(), n, s);
        assert(lits(t.drop_last()) + sub1(lits(t).last(), n, s) =~= lits(t));
    } else { assert(lits(t) =~= Seq::empty()); }
}
pub broadcast proof fn subst_fld(m: int, n: int, s: Seq<int>)
    ensures #[trigger] subst(fld1(m), n, s) == (if m == n { lits(s) } else { fld1(m) })
{
    assert(fld1(m).drop_last() =~= Seq::<Atom>::empty());
    assert(subst(Seq::<Atom>::empty(), n, s) =~= Seq::<Atom>::empty());
    assert(Seq::<Atom>::empty() + sub1(fld1(m).last(), n, s) =~= sub1(fld1(m).last(), n, s));
    assert(seq![Atom { fld: true, n: m }] =~= fld1(m));
}
pub broadcast proof fn subst_nil(n: int, s: Seq<int>)
    ensures #[trigger] subst(Seq::empty(), n, s) == Seq::<Atom>::empty()
{ }
/// loop invariant of an in-place insertion: segments below i are substituted, the rest untouched
pub open spec fn ins_upto(l: Seq<Format_FmtStringSeg>, l0: Seq<Format_FmtStringSeg>, i: int, n: int, s: Seq<int>) -> bool
{
    &&& l.len() == l0.len()
    &&& forall|k: int| 0 <= k < i && k < l.len() ==> atoms1(#[trigger] l[k]) == subst(atoms1(l0[k]), n, s)
    &&& forall|k: int| i <= k < l.len() ==> #[trigger] l[k] == l0[k]
}
pub proof fn ins_flat(l: Seq<Format_FmtStringSeg>, l0: Seq<Format_FmtStringSeg>, n: int, s: Seq<int>)
    ensures ins_upto(l, l0, l.len() as int, n, s) ==> flat(l) == subst(flat(l0), n, s)
    decreases l.len()
{
    if ins_upto(l, l0, l.len() as int, n, s) && l.len() > 0 {
        let m = l.drop_last(); let m0 = l0.drop_last();
        assert forall|k: int| 0 <= k < m.len() implies atoms1(#[trigger] m[k]) == subst(atoms1(m0[k]), n, s) by { assert(m[k] == l[k]); }
        ins_flat(m, m0, n, s);
        subst_cat(flat(m0), atoms1(l0.last()), n, s);
        assert(l.last() == l[l.len() - 1]);
    }
}
/// what one insertion does to a format object
pub open spec fn ins_rel(o: Format, s: Seq<int>, p: Format) -> bool
{ p.orig_fmt_string == o.orig_fmt_string && flat(p.format_string_segments) == subst(flat(o.format_string_segments), o.cur_arg_number, s) && p.cur_arg_number == uw32(o.cur_arg_number + 1) }
/// a freshly constructed or reset object
pub open spec fn fresh_fmt(o: Format, f: Seq<int>) -> bool
{ o.orig_fmt_string == f && flat(o.format_string_segments) == scan(f) && o.cur_arg_number == 0 }

// ---- rendering
pub open spec fn rend1(a: Atom) -> Seq<int> { if a.fld { seq![37int] + dec_nat(a.n) } else { seq![a.n] } }
pub open spec fn rend(a: Seq<Atom>) -> Seq<int>
    decreases a.len()
{ if a.len() == 0 { Seq::empty() } else { rend(a.drop_last()) + rend1(a.last()) } }
pub open spec fn filled(a: Seq<Atom>) -> bool { forall|k: int| 0 <= k < a.len() ==> !(#[trigger] a[k]).fld }
pub proof fn rend_cat(a: Seq<Atom>, b: Seq<Atom>)
    ensures rend(a + b) == rend(a) + rend(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(rend(a) + rend(b) =~= rend(a)); }
    else {
        rend_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(rend(a) + rend(b.drop_last()) + rend1(b.last()) =~= rend(a) + (rend(b.drop_last()) + rend1(b.last())));
    }
}
pub proof fn rend_lits(s: Seq<int>)
    ensures rend(lits(s)) == s
    decreases s.len()
{
    if s.len() > 0 {
        assert(lits(s).drop_last() =~= lits(s.drop_last()));
        rend_lits(s.drop_last());
        assert(s.drop_last() + seq![s.last()] =~= s);
    } else { assert(s =~= Seq::empty()); assert(lits(s) =~= Seq::empty()); }
}
/// rendering one segment more, and whether everything so far is filled
pub open spec fn rend_upto(l: Seq<Format_FmtStringSeg>, i: int) -> Seq<int> { rend(flat(l.subrange(0, i))) }
pub open spec fn filled_upto(l: Seq<Format_FmtStringSeg>, i: int) -> bool { filled(flat(l.subrange(0, i))) }
pub proof fn rend_step(l: Seq<Format_FmtStringSeg>, i: int)
    ensures 0 <= i < l.len() ==> {
        &&& rend_upto(l, i + 1) == rend_upto(l, i) + (if l[i].seg_type == 0 { l[i].val } else if l[i].seg_type == 1 { seq![37int] + dec_nat(l[i].idx) } else { Seq::empty() })
        &&& filled_upto(l, i + 1) == (filled_upto(l, i) && l[i].seg_type != 1)
    }
{
    if 0 <= i < l.len() {
        let a = flat(l.subrange(0, i)); let b = atoms1(l[i]); let c = a + b;
        assert(l.subrange(0, i + 1) =~= l.subrange(0, i).push(l[i]));
        flat_push(l.subrange(0, i), l[i]);
        rend_cat(a, b);
        if l[i].seg_type == 0 { rend_lits(l[i].val); }
        else if l[i].seg_type == 1 {
            assert(b.drop_last() =~= Seq::<Atom>::empty());
            assert(rend(b) =~= seq![37int] + dec_nat(l[i].idx)) by { assert(rend(b) == rend(b.drop_last()) + rend1(b.last())); assert(rend(b.drop_last()) =~= Seq::<int>::empty()); }
        }
        // filled
        if filled(a) && l[i].seg_type != 1 {
            assert forall|k: int| 0 <= k < c.len() implies !(#[trigger] c[k]).fld by { if k < a.len() { assert(c[k] == a[k]); assert(!a[k].fld); } else { assert(c[k] == b[k - a.len()]); } }
        }
        if filled(c) {
            assert forall|k: int| 0 <= k < a.len() implies !(#[trigger] a[k]).fld by { assert(c[k] == a[k]); assert(!c[k].fld); }
            if l[i].seg_type == 1 { assert(c[a.len() as int] == b[0]); assert(!c[a.len() as int].fld); }
        }
    }
}
pub proof fn rend_ends(l: Seq<Format_FmtStringSeg>)
    ensures rend_upto(l, 0) == Seq::<int>::empty(), filled_upto(l, 0), rend_upto(l, l.len() as int) == rend(flat(l)), filled_upto(l, l.len() as int) == filled(flat(l))
{ assert(l.subrange(0, l.len() as int) =~= l); assert(l.subrange(0, 0) =~= Seq::empty()); }

// ---- C01 as stated: after inserting the values v in order, rendering gives the template with every
// marker below v.len() replaced by its value
pub open spec fn substall(a: Seq<Atom>, v: Seq<Seq<int>>) -> Seq<Atom>
    decreases v.len()
{ if v.len() == 0 { a } else { subst(substall(a, v.drop_last()), v.len() - 1, v.last()) } }
pub open spec fn fillrend1(a: Atom, v: Seq<Seq<int>>) -> Seq<int> { if a.fld && 0 <= a.n < v.len() { v[a.n] } else { rend1(a) } }
pub open spec fn fillrend(a: Seq<Atom>, v: Seq<Seq<int>>) -> Seq<int>
    decreases a.len()
{ if a.len() == 0 { Seq::empty() } else { fillrend(a.drop_last(), v) + fillrend1(a.last(), v) } }
pub proof fn substall_cat(a: Seq<Atom>, b: Seq<Atom>, v: Seq<Seq<int>>)
    ensures substall(a + b, v) == substall(a, v) + substall(b, v)
    decreases v.len()
{ if v.len() > 0 { substall_cat(a, b, v.drop_last()); subst_cat(substall(a, v.drop_last()), substall(b, v.drop_last()), v.len() - 1, v.last()); } }
pub proof fn substall_one(x: Atom, v: Seq<Seq<int>>)
    ensures substall(seq![x], v) == (if x.fld && 0 <= x.n < v.len() { lits(v[x.n]) } else { seq![x] })
    decreases v.len()
{
    if v.len() > 0 {
        substall_one(x, v.drop_last());
        let n = v.len() - 1;
        assert(seq![x].drop_last() =~= Seq::<Atom>::empty());
        assert(subst(seq![x], n, v.last()) == subst(seq![x].drop_last(), n, v.last()) + sub1(x, n, v.last()));
        assert(Seq::<Atom>::empty() + sub1(x, n, v.last()) =~= sub1(x, n, v.last()));
        if x.fld && 0 <= x.n < n { subst_lits(v[x.n], n, v.last()); }
    }
}
pub proof fn substall_empty(v: Seq<Seq<int>>)
    ensures substall(Seq::empty(), v) == Seq::<Atom>::empty()
    decreases v.len()
{ if v.len() > 0 { substall_empty(v.drop_last()); } }
pub proof fn thm_fill(a: Seq<Atom>, v: Seq<Seq<int>>)
    ensures rend(substall(a, v)) == fillrend(a, v)
    decreases a.len()
{
    if a.len() == 0 { substall_empty(v); assert(a =~= Seq::empty()); }
    else {
        thm_fill(a.drop_last(), v);
        assert(a =~= a.drop_last() + seq![a.last()]);
        substall_cat(a.drop_last(), seq![a.last()], v);
        substall_one(a.last(), v);
        rend_cat(substall(a.drop_last(), v), substall(seq![a.last()], v));
        let x = a.last();
        if x.fld && 0 <= x.n < v.len() { rend_lits(v[x.n]); }
        else {
            assert(seq![x].drop_last() =~= Seq::<Atom>::empty());
            assert(rend(seq![x]) == rend(seq![x].drop_last()) + rend1(x));
            assert(rend(seq![x]) =~= rend1(x));
        }
    }
}
/// a chain of insertions o -> p; the counter does not wrap for fewer than 2^32 values
pub proof fn thm_history(f: Seq<int>, objs: Seq<Format>, v: Seq<Seq<int>>)
    requires objs.len() == v.len() + 1, v.len() < 4294967296, fresh_fmt(objs[0], f), forall|k: int| 0 <= k < v.len() ==> #[trigger] ins_rel(objs[k], v[k], objs[k + 1])
    ensures flat(objs.last().format_string_segments) == substall(scan(f), v), objs.last().cur_arg_number == v.len() % 4294967296, objs.last().orig_fmt_string == f,
        rend(flat(objs.last().format_string_segments)) == fillrend(scan(f), v)
    decreases v.len()
{
    if v.len() > 0 {
        let o2 = objs.drop_last(); let v2 = v.drop_last();
        assert forall|k: int| 0 <= k < v2.len() implies #[trigger] ins_rel(o2[k], v2[k], o2[k + 1]) by { assert(ins_rel(objs[k], v[k], objs[k + 1])); }
        thm_history(f, o2, v2);
        let k = v.len() - 1;
        assert(ins_rel(objs[k], v[k], objs[k + 1]));
    }
    thm_fill(scan(f), v);
}

