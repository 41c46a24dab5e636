// ---- S01: squashing spaces, one character at a time.  `pend`: a run of spaces is pending
pub open spec fn sq_go(s: Seq<int>, i: int, pend: bool, out: Seq<int>) -> Seq<int>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { out }
    else if s[i] == 32 { sq_go(s, i + 1, true, out) }
    else { sq_go(s, i + 1, false, (if pend && out.len() > 0 { out.push(32) } else { out }).push(s[i])) }
}
pub open spec fn squash(s: Seq<int>) -> Seq<int> { sq_go(s, 0, false, Seq::empty()) }
pub open spec fn trimlast(o: Seq<int>) -> Seq<int> { if o.len() > 0 && o.last() == 32 { o.drop_last() } else { o } }

pub proof fn sq_shift(s: Seq<int>, t: Seq<int>, i: int, j: int, p: bool, o: Seq<int>)
    requires 0 <= i <= s.len(), 0 <= j <= t.len(), s.subrange(i, s.len() as int) =~= t.subrange(j, t.len() as int)
    ensures sq_go(s, i, p, o) == sq_go(t, j, p, o)
    decreases s.len() - i
{
    assert(s.subrange(i, s.len() as int).len() == t.subrange(j, t.len() as int).len());
    if i < s.len() {
        assert(s.subrange(i, s.len() as int)[0] == t.subrange(j, t.len() as int)[0]);
        assert forall|k: int| 0 <= k < s.len() - (i + 1) implies #[trigger] s.subrange(i + 1, s.len() as int)[k] == t.subrange(j + 1, t.len() as int)[k] by {
            assert(s.subrange(i, s.len() as int)[k + 1] == t.subrange(j, t.len() as int)[k + 1]);
        }
        let o2 = (if p && o.len() > 0 { o.push(32) } else { o }).push(s[i]);
        sq_shift(s, t, i + 1, j + 1, true, o);
        sq_shift(s, t, i + 1, j + 1, false, o2);
    }
}
pub proof fn sq_pend(s: Seq<int>, i: int)
    ensures sq_go(s, i, true, Seq::empty()) == sq_go(s, i, false, Seq::empty())
{ }
pub proof fn sq_front(s: Seq<int>)
    ensures s.len() > 0 && s[0] == 32 ==> squash(s.subrange(1, s.len() as int)) == squash(s)
{
    if s.len() > 0 && s[0] == 32 {
        let t = s.subrange(1, s.len() as int);
        sq_pend(s, 1);
        assert(t.subrange(0, t.len() as int) =~= s.subrange(1, s.len() as int));
        sq_shift(s, t, 1, 0, false, Seq::empty());
    }
}
pub proof fn sq_back_at(s: Seq<int>, i: int, p: bool, o: Seq<int>)
    requires 0 <= i <= s.len() - 1, s.last() == 32
    ensures sq_go(s.subrange(0, s.len() - 1), i, p, o) == sq_go(s, i, p, o)
    decreases s.len() - i
{
    let t = s.subrange(0, s.len() - 1);
    if i < s.len() - 1 {
        assert(t[i] == s[i]);
        sq_back_at(s, i + 1, true, o);
        sq_back_at(s, i + 1, false, (if p && o.len() > 0 { o.push(32) } else { o }).push(s[i]));
    } else {
        assert(sq_go(s, i + 1, true, o) == o);
    }
}
pub proof fn sq_back(s: Seq<int>)
    ensures s.len() > 0 && s[s.len() - 1] == 32 ==> squash(s.subrange(0, s.len() - 1)) == squash(s)
{ if s.len() > 0 && s[s.len() - 1] == 32 { sq_back_at(s, 0, false, Seq::empty()); } }
pub proof fn sq_mid_at(s: Seq<int>, x: int, i: int, p: bool, o: Seq<int>)
    requires 0 <= i <= x, x + 1 < s.len(), s[x] == 32, s[x + 1] == 32
    ensures sq_go(s.subrange(0, x) + s.subrange(x + 1, s.len() as int), i, p, o) == sq_go(s, i, p, o)
    decreases x - i
{
    let t = s.subrange(0, x) + s.subrange(x + 1, s.len() as int);
    assert(t[i] == s[i]);
    if i < x {
        sq_mid_at(s, x, i + 1, true, o);
        sq_mid_at(s, x, i + 1, false, (if p && o.len() > 0 { o.push(32) } else { o }).push(s[i]));
    } else {
        assert(t[x] == s[x + 1]);
        assert(sq_go(s, x, p, o) == sq_go(s, x + 1, true, o));
        assert(sq_go(s, x + 1, true, o) == sq_go(s, x + 2, true, o));
        assert(t.subrange(x + 1, t.len() as int) =~= s.subrange(x + 2, s.len() as int));
        sq_shift(t, s, x + 1, x + 2, true, o);
    }
}
pub proof fn sq_mid(s: Seq<int>)
    ensures forall|x: int| 0 <= x && x + 1 < s.len() && s[x] == 32 && s[x + 1] == 32 ==> squash(s.subrange(0, x) + #[trigger] s.subrange(x + 1, s.len() as int)) == squash(s)
{
    assert forall|x: int| 0 <= x && x + 1 < s.len() && s[x] == 32 && s[x + 1] == 32 implies squash(s.subrange(0, x) + #[trigger] s.subrange(x + 1, s.len() as int)) == squash(s) by {
        sq_mid_at(s, x, 0, false, Seq::empty());
    }
}
/// a pending space in front of the first run does not show
pub broadcast proof fn sq_pend_empty(s: Seq<int>, i: int, o: Seq<int>)
    requires o.len() == 0
    ensures #[trigger] sq_go(s, i, true, o) == sq_go(s, i, false, o)
    decreases s.len() - i
{ if 0 <= i < s.len() { sq_pend_empty(s, i + 1, o); } }
/// cutting spaces off either end changes nothing
pub proof fn sq_spaces(s: Seq<int>, i: int, p: bool, o: Seq<int>)
    requires 0 <= i, forall|k: int| i <= k < s.len() ==> #[trigger] s[k] == 32
    ensures sq_go(s, i, p, o) == o
    decreases s.len() - i
{ if i < s.len() { sq_spaces(s, i + 1, true, o); } }
pub proof fn sq_lead(s: Seq<int>, i: int, a: int, p: bool)
    requires 0 <= i <= a <= s.len(), forall|k: int| i <= k < a ==> #[trigger] s[k] == 32
    ensures sq_go(s, i, p, Seq::empty()) == sq_go(s, a, false, Seq::empty())
    decreases a - i
{ if i < a { sq_lead(s, i + 1, a, true); } else if p { sq_pend_empty(s, i, Seq::empty()); } }
pub proof fn sq_upto(s: Seq<int>, b: int, i: int, p: bool, o: Seq<int>)
    requires 0 <= i <= b <= s.len(), forall|k: int| b <= k < s.len() ==> #[trigger] s[k] == 32
    ensures sq_go(s.subrange(0, b), i, p, o) == sq_go(s, i, p, o)
    decreases b - i
{
    let t = s.subrange(0, b);
    if i < b {
        assert(t[i] == s[i]);
        sq_upto(s, b, i + 1, true, o);
        sq_upto(s, b, i + 1, false, (if p && o.len() > 0 { o.push(32) } else { o }).push(s[i]));
    } else { sq_spaces(s, b, p, o); }
}
pub broadcast proof fn sq_trim(s: Seq<int>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|k: int| 0 <= k < a ==> #[trigger] s[k] == 32, forall|k: int| b <= k < s.len() ==> #[trigger] s[k] == 32
    ensures squash(#[trigger] s.subrange(a, b)) == squash(s)
{
    let t = s.subrange(0, b);
    sq_upto(s, b, 0, false, Seq::empty());
    sq_lead(t, 0, a, false);
    assert(t.subrange(a, b) =~= s.subrange(a, b));
    assert(s.subrange(a, b).subrange(0, b - a) =~= t.subrange(a, t.len() as int));
    sq_shift(s.subrange(a, b), t, 0, a, false, Seq::empty());
}
pub broadcast proof fn sq_none(s: Seq<int>)
    requires forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == 32
    ensures #[trigger] squash(s) == Seq::<int>::empty()
{ sq_spaces(s, 0, false, Seq::empty()); }
pub open spec fn tidy_to(s: Seq<int>, n: int) -> bool
{ forall|k: int| 0 <= k < n && k < s.len() && #[trigger] s[k] == 32 ==> k + 1 < s.len() && s[k + 1] != 32 }
pub open spec fn nodbl_to(s: Seq<int>, n: int) -> bool
{ forall|k: int| 0 <= k < n && k + 1 < s.len() && #[trigger] s[k] == 32 ==> s[k + 1] != 32 }
pub open spec fn tidy(s: Seq<int>) -> bool
{ (s.len() > 0 ==> s[0] != 32 && s[s.len() - 1] != 32) && tidy_to(s, s.len() as int) }
pub proof fn sq_tidy_at(s: Seq<int>, i: int)
    requires tidy(s), 0 <= i <= s.len()
    ensures sq_go(s, i, i > 0 && s[i - 1] == 32, if i > 0 && s[i - 1] == 32 { s.subrange(0, i - 1) } else { s.subrange(0, i) }) == s
    decreases s.len() - i
{
    if i < s.len() {
        sq_tidy_at(s, i + 1);
        if i > 0 { assert(s[i - 1] == 32 ==> s[i] != 32); }
        if i > 0 && s[i - 1] == 32 {
            assert(i - 1 > 0);
            assert(s.subrange(0, i - 1).push(32).push(s[i]) =~= s.subrange(0, i + 1));
        } else if s[i] != 32 {
            assert(s.subrange(0, i).push(s[i]) =~= s.subrange(0, i + 1));
        }
    } else { assert(s.subrange(0, i) =~= s); }
}
pub proof fn sq_tidy(s: Seq<int>)
    ensures tidy(s) ==> squash(s) == s
{ if tidy(s) { sq_tidy_at(s, 0); assert(s.subrange(0, 0) =~= Seq::empty()); } }

// the statement's "maximal non-space runs joined by one space", tied to the machine: the result is tidy
pub proof fn squash_tidy_at(s: Seq<int>, i: int, p: bool, o: Seq<int>)
    requires tidy(o), 0 <= i
    ensures tidy(sq_go(s, i, p, o))
    decreases s.len() - i
{
    if i < s.len() {
        if s[i] == 32 { squash_tidy_at(s, i + 1, true, o); }
        else {
            let o1 = if p && o.len() > 0 { o.push(32) } else { o };
            let o2 = o1.push(s[i]);
            assert forall|k: int| 0 <= k < o2.len() && #[trigger] o2[k] == 32 implies k + 1 < o2.len() && o2[k + 1] != 32 by {
                if k < o.len() { assert(o[k] == 32); assert(k + 1 < o.len() && o[k + 1] != 32); assert(o2[k + 1] == o[k + 1]); }
            }
            squash_tidy_at(s, i + 1, false, o2);
        }
    }
}
/// S01 as stated: no space at either end, no two adjacent spaces
pub proof fn squash_is_tidy(s: Seq<int>)
    ensures tidy(squash(s))
{ squash_tidy_at(s, 0, false, Seq::empty()); }
/// ... and the non-space characters are kept, in order
pub open spec fn nonspace(s: Seq<int>) -> Seq<int> { s.filter(|c: int| c != 32) }

// ---- S02: pieces between delimiters
pub open spec fn sp_go(s: Seq<int>, d: Seq<int>, ne: bool, i: int, cur: Seq<int>, acc: Seq<Seq<int>>) -> Seq<Seq<int>>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { if cur.len() > 0 { acc.push(cur) } else { acc } }
    else if d.contains(s[i]) { sp_go(s, d, ne, i + 1, Seq::empty(), if ne && cur.len() == 0 { acc } else { acc.push(cur) }) }
    else { sp_go(s, d, ne, i + 1, cur.push(s[i]), acc) }
}
pub open spec fn split_spec(s: Seq<int>, d: Seq<int>, ne: bool) -> Seq<Seq<int>> { sp_go(squash(s), d, ne, 0, Seq::empty(), Seq::empty()) }
pub proof fn sp_skip(s: Seq<int>, d: Seq<int>, ne: bool, i: int, j: int, cur: Seq<int>, acc: Seq<Seq<int>>)
    requires 0 <= i <= j <= s.len(), forall|k: int| i <= k < j ==> !d.contains(#[trigger] s[k])
    ensures sp_go(s, d, ne, i, cur, acc) == sp_go(s, d, ne, j, cur + s.subrange(i, j), acc)
    decreases j - i
{
    if i < j {
        sp_skip(s, d, ne, i + 1, j, cur.push(s[i]), acc);
        assert(cur.push(s[i]) + s.subrange(i + 1, j) =~= cur + s.subrange(i, j));
    } else { assert(cur + s.subrange(i, j) =~= cur); }
}
pub proof fn sp_run(s: Seq<int>, d: Seq<int>, ne: bool, i: int, acc: Seq<Seq<int>>)
    ensures forall|j: int| 0 <= i <= j <= s.len() && (forall|k: int| i <= k < j ==> !d.contains(#[trigger] s[k]))
        ==> sp_go(s, d, ne, i, Seq::empty(), acc) == sp_go(s, d, ne, j, #[trigger] s.subrange(i, j), acc)
{
    assert forall|j: int| 0 <= i <= j <= s.len() && (forall|k: int| i <= k < j ==> !d.contains(#[trigger] s[k]))
        implies sp_go(s, d, ne, i, Seq::empty(), acc) == sp_go(s, d, ne, j, #[trigger] s.subrange(i, j), acc) by {
        sp_skip(s, d, ne, i, j, Seq::empty(), acc);
        assert(Seq::<int>::empty() + s.subrange(i, j) =~= s.subrange(i, j));
    }
}
