// ---- O01: words and quoted tokens of a command text
pub open spec fn tk_go(s: Seq<int>, i: int, cur: Seq<int>, q: bool, out: Seq<Seq<int>>) -> Seq<Seq<int>>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { if cur.len() > 0 { out.push(cur) } else { out } }
    else if s[i] == 34 { if q { tk_go(s, i + 1, Seq::empty(), false, out.push(cur)) } else { tk_go(s, i + 1, cur, true, out) } }
    else if c_isspace(s[i]) && !q { tk_go(s, i + 1, Seq::empty(), false, if cur.len() > 0 { out.push(cur) } else { out }) }
    else { tk_go(s, i + 1, cur.push(s[i]), q, out) }
}
pub open spec fn tokens(s: Seq<int>) -> Seq<Seq<int>> { tk_go(s, 0, Seq::empty(), false, Seq::empty()) }
/// the characters of the text that belong to tokens: everything but quotes and unquoted white space
pub open spec fn kept(s: Seq<int>, i: int, q: bool) -> Seq<int>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { Seq::empty() }
    else if s[i] == 34 { kept(s, i + 1, !q) }
    else if c_isspace(s[i]) && !q { kept(s, i + 1, q) }
    else { seq![s[i]] + kept(s, i + 1, q) }
}
pub open spec fn joined(l: Seq<Seq<int>>) -> Seq<int> decreases l.len() { if l.len() == 0 { Seq::empty() } else { joined(l.drop_last()) + l.last() } }
/// O01: every character that is not a quote and not unquoted white space ends up in exactly one token, in order
pub proof fn thm_kept(s: Seq<int>, i: int, cur: Seq<int>, q: bool, out: Seq<Seq<int>>)
    requires 0 <= i
    ensures joined(tk_go(s, i, cur, q, out)) =~= joined(out) + cur + kept(s, i, q)
    decreases s.len() - i
{
    assert(out.push(cur).drop_last() =~= out);
    if i < s.len() {
        if s[i] == 34 { if q { thm_kept(s, i + 1, Seq::empty(), false, out.push(cur)); } else { thm_kept(s, i + 1, cur, true, out); } }
        else if c_isspace(s[i]) && !q { thm_kept(s, i + 1, Seq::empty(), false, if cur.len() > 0 { out.push(cur) } else { out }); }
        else { thm_kept(s, i + 1, cur.push(s[i]), q, out); assert(joined(out) + cur.push(s[i]) + kept(s, i + 1, q) =~= joined(out) + cur + (seq![s[i]] + kept(s, i + 1, q))); }
    }
}
/// the arguments after the program name
pub open spec fn argtokens(a: Seq<Seq<int>>, argc: int) -> Seq<Seq<int>> { if argc < 2 { Seq::empty() } else { a.subrange(1, argc) } }
/// result of the n-th call of parse(list of tokens)
pub uninterp spec fn parse_rs(n: int) -> bool;

/// an empty squashed text has no pieces
pub proof fn sp_empty(s: Seq<int>, d: Seq<int>)
    ensures squash(s).len() == 0 ==> split_spec(s, d, false).len() == 0, squash(s).len() > 0 ==> split_spec(s, d, false).len() > 0
{ if squash(s).len() > 0 { sp_grow(squash(s), d, 0, Seq::empty(), Seq::empty()); } }
pub proof fn sp_grow(s: Seq<int>, d: Seq<int>, i: int, cur: Seq<int>, acc: Seq<Seq<int>>)
    requires 0 <= i <= s.len()
    ensures sp_go(s, d, false, i, cur, acc).len() >= acc.len() + (if i < s.len() || cur.len() > 0 { 1int } else { 0 })
    decreases s.len() - i
{ if i < s.len() { if d.contains(s[i]) { sp_grow(s, d, i + 1, Seq::empty(), acc.push(cur)); } else { sp_grow(s, d, i + 1, cur.push(s[i]), acc); } } }

// ---- O05: key=value items as tokens
pub open spec fn kv_key(kv: Seq<int>) -> Seq<int> { seq![45int, 45int] + kv.subrange(0, ffo(kv, seq![61int], 0)) }
pub open spec fn kv_item(kv: Seq<int>, out: Seq<Seq<int>>) -> Seq<Seq<int>> {
    let e = ffo(kv, seq![61int], 0);
    if kv.len() == 0 { out } else if e >= kv.len() { out.push(kv_key(kv)) } else { out.push(kv_key(kv)).push(kv.subrange(e + 1, kv.len() as int)) }
}
pub open spec fn no_eq(s: Seq<int>, k: int) -> bool { forall|j: int| 0 <= j < k ==> #[trigger] s[j] != 61 }
pub proof fn ffo_eq(s: Seq<int>, i: int, k: int)
    requires 0 <= i <= k <= s.len(), no_eq(s, k), k == s.len() || s[k] == 61
    ensures ffo(s, seq![61int], i) == k
    decreases k - i
{
    assert(seq![61int].contains(61)) by { assert(seq![61int][0] == 61); }
    if i < k { assert(s[i] != 61); assert(!seq![61int].contains(s[i])); ffo_eq(s, i + 1, k); }
}
pub broadcast proof fn ffo_no_eq(s: Seq<int>, k: int)
    requires #[trigger] no_eq(s, k), 0 <= k <= s.len(), k == s.len() || s[k] == 61
    ensures ffo(s, seq![61int], 0) == k
{ ffo_eq(s, 0, k); }
pub open spec fn kv_go(l: Seq<Seq<int>>, i: int, out: Seq<Seq<int>>) -> Seq<Seq<int>>
    decreases l.len() - i
{ if i < 0 || i >= l.len() { out } else { kv_go(l, i + 1, kv_item(squash(l[i]), out)) } }
pub open spec fn kv_tokens(l: Seq<Seq<int>>) -> Seq<Seq<int>> { kv_go(l, 0, Seq::empty()) }
pub proof fn kv_fact(l: Seq<Seq<int>>, i: int)
    ensures ({ let kv = squash(l[i]); let e = ffo(kv, seq![61int], 0);
        &&& 0 <= e <= kv.len() && kv.subrange(0, kv.len() as int) == kv && (e >= kv.len() ==> kv_key(kv) == seq![45int, 45int] + kv) })
{ let kv = squash(l[i]); search_facts(kv, seq![61int], 0); assert(kv.subrange(0, kv.len() as int) =~= kv); }

// ---- O02/O03: what a parse of a token list does.  An option object is named by its address; `h` holds its fixed fields
pub type Names = Map<Seq<int>, int>;
pub type Letters = Map<int, int>;
pub type Objs = Map<int, OB>;
pub enum Ev { Value { opt: int, val: Seq<int> }, Refused { opt: int, val: Seq<int> }, Seen { opt: int } }
pub struct PR { pub ok: bool, pub log: Seq<Ev>, pub pos: Seq<Seq<int>> }
/// this object is a presence option
pub uninterp spec fn is_pres(o: int) -> bool;
/// option o, after the events in log, refuses the value v (conversion or test)
pub uninterp spec fn rejects(log: Seq<Ev>, o: int, v: Seq<int>) -> bool;
pub open spec fn switch_len(k: Seq<int>) -> int { if k.len() < 2 || k[0] != 45 { 0 } else if k[1] != 45 { 1 } else if k.len() > 2 { 2 } else { 0 } }
/// the option takes the next token whatever it looks like
pub open spec fn must_take(h: Objs, o: int) -> bool { !h[o].has_default || h[o].is_signed }
pub open spec fn named(lm: Names, am: Letters, k: Seq<int>) -> int {
    if switch_len(k) == 1 { if am.dom().contains(k[1]) { am[k[1]] } else { 0 } }
    else { let n = k.subrange(2, k.len() as int); if lm.dom().contains(n) { lm[n] } else { 0 } }
}
pub open spec fn asks_help(k: Seq<int>) -> bool { if switch_len(k) == 1 { k[1] == 104 } else { k =~= seq![45int, 45, 104, 101, 108, 112] } }
pub open spec fn pr(lm: Names, am: Letters, h: Objs, t: Seq<Seq<int>>, cur: int, log: Seq<Ev>, pos: Seq<Seq<int>>) -> PR
    decreases t.len()
{
    if t.len() == 0 { PR { ok: true, log, pos } } else {
        let k = t[0]; let r = t.subrange(1, t.len() as int);
        if (cur != 0 && must_take(h, cur)) || switch_len(k) == 0 {
            if cur == 0 { pr(lm, am, h, r, 0, log, pos.push(k)) }
            else if rejects(log, cur, k) { PR { ok: false, log: log.push(Ev::Refused { opt: cur, val: k }), pos } }
            else { pr(lm, am, h, r, 0, log.push(Ev::Value { opt: cur, val: k }), pos) }
        } else {
            let l1 = if cur != 0 { log.push(Ev::Seen { opt: cur }) } else { log };
            let o = named(lm, am, k);
            if asks_help(k) || o == 0 { PR { ok: false, log: l1, pos } }
            else if is_pres(o) { pr(lm, am, h, r, 0, l1.push(Ev::Seen { opt: o }), pos) }
            else { pr(lm, am, h, r, o, l1, pos) }
        }
    }
}
/// the fields of option objects fixed at registration
pub open spec fn same_fixed(a: Objs, b: Objs) -> bool { forall|o: int| #![trigger b[o]] #![trigger a[o]] b[o].is_signed == a[o].is_signed && b[o].has_default == a[o].has_default && b[o].long_name == a[o].long_name && b[o].ab_name == a[o].ab_name && b[o].doc_str == a[o].doc_str && b[o].err_msg == a[o].err_msg }
pub open spec fn marks(log: Seq<Ev>, n: int, o: int) -> bool { exists|j: int| #![trigger log[j]] n <= j < log.len() && ev_marks(log[j], o) }
/// O04: present = present before, or a value was accepted, or the switch was seen
pub open spec fn marked(a: Objs, b: Objs, n: int, log: Seq<Ev>) -> bool { forall|o: int| #![trigger b[o]] #![trigger marks(log, n, o)] b[o].present == (a[o].present || marks(log, n, o)) }
pub open spec fn ev_marks(e: Ev, o: int) -> bool { match e { Ev::Value { opt, val } => opt == o, Ev::Seen { opt } => opt == o, _ => false } }
pub broadcast proof fn marks_push(log: Seq<Ev>, e: Ev, n: int, o: int)
    requires 0 <= n <= log.len()
    ensures #[trigger] marks(log.push(e), n, o) == (marks(log, n, o) || ev_marks(e, o))
{
    let l2 = log.push(e);
    if marks(log, n, o) { let j = choose|j: int| #![trigger log[j]] n <= j < log.len() && ev_marks(log[j], o); assert(l2[j] == log[j]); }
    if marks(l2, n, o) { let j = choose|j: int| #![trigger l2[j]] n <= j < l2.len() && ev_marks(l2[j], o); if j < log.len() { assert(l2[j] == log[j]); } }
    assert(l2[log.len() as int] == e);
}
pub proof fn sub_rest(t: Seq<Seq<int>>, i: int)
    requires 0 <= i < t.len()
    ensures t.subrange(i, t.len() as int).subrange(1, t.len() - i) == t.subrange(i + 1, t.len() as int)
{ assert(t.subrange(i, t.len() as int).subrange(1, t.len() - i) =~= t.subrange(i + 1, t.len() as int)); }
