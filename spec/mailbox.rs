// ---- one mailbox: what each operation does to the pending messages, and what every history of operations guarantees
pub type Qs = Map<int, Seq<int>>;
pub open spec fn jm(s: MB) -> bool { s.message_queues.dom().finite() && 0 <= s.subscription_counter && (forall|k: int| #![trigger s.message_queues.dom().contains(k)] s.message_queues.dom().contains(k) ==> 0 <= k < s.subscription_counter) }
pub open spec fn same_m(s: MB, t: MB) -> bool { t.name == s.name && t.message_queues == s.message_queues && t.subscription_counter == s.subscription_counter }
pub open spec fn upd_m(s: MB, t: MB, q: Qs) -> bool { t.name == s.name && t.subscription_counter == s.subscription_counter && t.message_queues =~~= q }
pub open spec fn is_sub(s: MB, id: int) -> bool { s.message_queues.dom().contains(id) }
pub open spec fn pend(s: MB, id: int) -> Seq<int> { s.message_queues[id] }

pub open spec fn new_mb(t: MB, name: Seq<int>) -> bool { t.name == name && t.message_queues =~~= Map::<int, Seq<int>>::empty() && t.subscription_counter == 0 }
pub open spec fn subscribe_st(s: MB, t: MB, id: int) -> bool { t.name == s.name && id == s.subscription_counter && t.subscription_counter == id + 1 && t.message_queues =~~= s.message_queues.insert(id, Seq::empty()) }
pub open spec fn get_st(s: MB, t: MB, id: int) -> bool { is_sub(s, id) && if pend(s, id).len() == 0 { same_m(s, t) } else { upd_m(s, t, s.message_queues.insert(id, pend(s, id).subrange(1, pend(s, id).len() as int))) } }
pub open spec fn get_rs(s: MB, id: int, r: int) -> bool { r == if pend(s, id).len() == 0 { 0 } else { pend(s, id)[0] } }
pub open spec fn put_queues(q: Qs, msg: int, omit: int) -> Qs { Map::new(q.dom(), |k: int| if k == omit { q[k] } else { q[k].push(msg) }) }
pub open spec fn put_st(s: MB, t: MB, msg: int, omit: int) -> bool { upd_m(s, t, put_queues(s.message_queues, msg, omit)) }
pub open spec fn put_all(s: MB, t: MB, msg: int) -> bool { upd_m(s, t, Map::new(s.message_queues.dom(), |k: int| s.message_queues[k].push(msg))) }
pub open spec fn clear_st(s: MB, t: MB, id: int) -> bool { is_sub(s, id) && upd_m(s, t, s.message_queues.insert(id, Seq::empty())) }
pub open spec fn unsub_st(s: MB, t: MB, id: int) -> bool { is_sub(s, id) && upd_m(s, t, s.message_queues.remove(id)) }
pub open spec fn ready_rs(s: MB, id: int, r: int) -> bool { is_sub(s, id) && r == pend(s, id).len() }
/// the smallest pending count over all current subscriptions
pub open spec fn min_rs(s: MB, r: int) -> bool { (forall|k: int| #![trigger s.message_queues[k]] is_sub(s, k) ==> r <= pend(s, k).len()) && (exists|k: int| #![trigger s.message_queues[k]] is_sub(s, k) && r == pend(s, k).len()) }
pub open spec fn count_rs(s: MB, r: int) -> bool { r == s.message_queues.dom().len() }

// ---- loop invariants
pub open spec fn put_upto(a: Qs, b: Qs, ks: Seq<int>, i: int, msg: int, omit: int) -> bool
    { b.dom() =~= a.dom() && (forall|j: int| #![trigger ks[j]] 0 <= j < ks.len() ==> b[ks[j]] == if j < i && ks[j] != omit { a[ks[j]].push(msg) } else { a[ks[j]] }) }
pub open spec fn min_upto(q: Qs, ks: Seq<int>, i: int, r: int) -> bool
    { 0 <= r && (forall|j: int| #![trigger ks[j]] 0 <= j < i && j < ks.len() ==> r <= q[ks[j]].len()) && ((i == 0 && r == 4294967295) || exists|j: int| #![trigger ks[j]] 0 <= j < i && j < ks.len() && r == q[ks[j]].len()) }
pub broadcast proof fn put_upto_end(a: Qs, b: Qs, i: int, msg: int, omit: int)
    requires #[trigger] put_upto(a, b, map_keys_int(a.dom()), i, msg, omit), map_keys_ok_int(a.dom(), map_keys_int(a.dom())), i >= map_keys_int(a.dom()).len(),
    ensures b =~~= put_queues(a, msg, omit),
{
    let ks = map_keys_int(a.dom());
    assert forall|k: int| a.dom().contains(k) implies b[k] == put_queues(a, msg, omit)[k] by { assert(ks.contains(k)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k; assert(b[ks[j]] == if j < i && ks[j] != omit { a[ks[j]].push(msg) } else { a[ks[j]] }); }
}
pub broadcast proof fn min_upto_end(s: MB, i: int, r: int)
    requires #[trigger] min_upto(s.message_queues, map_keys_int(s.message_queues.dom()), i, r), map_keys_ok_int(s.message_queues.dom(), map_keys_int(s.message_queues.dom())), i == map_keys_int(s.message_queues.dom()).len(), i > 0,
    ensures min_rs(s, r),
{
    let ks = map_keys_int(s.message_queues.dom()); let q = s.message_queues;
    assert forall|k: int| is_sub(s, k) implies r <= pend(s, k).len() by { assert(ks.contains(k)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k; assert(r <= q[ks[j]].len()); }
    let j = choose|j: int| #![trigger ks[j]] 0 <= j < i && j < ks.len() && r == q[ks[j]].len();
    assert(is_sub(s, ks[j])); assert(r == q[ks[j]].len());
}
pub broadcast proof fn keys_count(d: Set<int>)
    requires #[trigger] map_keys_ok_int(d, map_keys_int(d)), d.finite(),
    ensures map_keys_int(d).len() == d.len(),
{ let ks = map_keys_int(d); assert(ks.to_set() =~= d); ks.unique_seq_to_set(); }

// ---- histories
pub enum Op { Subscribe { id: int }, Get { id: int }, Put { msg: int, omit: int }, Clear { id: int }, Unsub { id: int }, Other }
pub open spec fn mstep(ss: Seq<MB>, es: Seq<Op>, i: int) -> bool {
    let s = ss[i]; let t = ss[i + 1];
    match es[i] {
        Op::Subscribe { id } => subscribe_st(s, t, id),
        Op::Get { id } => get_st(s, t, id),
        Op::Put { msg, omit } => put_st(s, t, msg, omit),
        Op::Clear { id } => clear_st(s, t, id),
        Op::Unsub { id } => unsub_st(s, t, id),
        Op::Other => same_m(s, t),
    }
}
pub open spec fn mhist(ss: Seq<MB>, es: Seq<Op>) -> bool {
    ss.len() == es.len() + 1 && ss[0].message_queues =~= Map::<int, Seq<int>>::empty() && ss[0].subscription_counter == 0 && (forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> mstep(ss, es, i))
}
pub proof fn mhist_inv(ss: Seq<MB>, es: Seq<Op>, i: int)
    requires mhist(ss, es), 0 <= i <= es.len(),
    ensures jm(ss[i]),
    decreases i,
{
    if i > 0 { mhist_inv(ss, es, i - 1); assert(mstep(ss, es, i - 1)); 
        match es[i - 1] { Op::Put { msg, omit } => { assert(ss[i].message_queues.dom() =~= ss[i - 1].message_queues.dom()); }, Op::Get { id } => { assert(ss[i].message_queues.dom() =~= ss[i - 1].message_queues.dom()); }, _ => {} } }
    else { assert(ss[0].message_queues.dom() =~= Set::<int>::empty()); }
}
pub proof fn counter_mono(ss: Seq<MB>, es: Seq<Op>, i: int, j: int)
    requires mhist(ss, es), 0 <= i <= j <= es.len(),
    ensures ss[i].subscription_counter <= ss[j].subscription_counter,
    decreases j - i,
{ if i < j { counter_mono(ss, es, i, j - 1); assert(mstep(ss, es, j - 1)); } }
/// M02: no id is given twice
pub proof fn thm_ids(ss: Seq<MB>, es: Seq<Op>, i: int, j: int, a: int, b: int)
    requires mhist(ss, es), 0 <= i < j < es.len(), es[i] == (Op::Subscribe { id: a }), es[j] == (Op::Subscribe { id: b }),
    ensures a < b,
{ assert(mstep(ss, es, i)); assert(mstep(ss, es, j)); counter_mono(ss, es, i + 1, j); }
/// the messages posted in [b, i) while `id` was not the excluded sender, in order
pub open spec fn posted(es: Seq<Op>, id: int, b: int, i: int) -> Seq<int> decreases i - b {
    if i <= b { Seq::empty() } else { match es[i - 1] { Op::Put { msg, omit } => if omit == id { posted(es, id, b, i - 1) } else { posted(es, id, b, i - 1).push(msg) }, _ => posted(es, id, b, i - 1) } }
}
/// what was taken out of the queue of `id` in [b, i), in order: by get one at a time, by clear all at once
pub open spec fn taken(ss: Seq<MB>, es: Seq<Op>, id: int, b: int, i: int) -> Seq<int> decreases i - b {
    if i <= b { Seq::empty() } else {
        let p = taken(ss, es, id, b, i - 1);
        match es[i - 1] {
            Op::Get { id: g } => if g == id && pend(ss[i - 1], id).len() > 0 { p.push(pend(ss[i - 1], id)[0]) } else { p },
            Op::Clear { id: g } => if g == id { p + pend(ss[i - 1], id) } else { p },
            _ => p,
        } }
}
/// M01: from its subscription (event b) on, and until it is ended, taken ++ pending is exactly what was posted to `id`
pub proof fn thm_delivery(ss: Seq<MB>, es: Seq<Op>, id: int, b: int, i: int)
    requires mhist(ss, es), 0 <= b < i <= es.len(), es[b] == (Op::Subscribe { id }), forall|k: int| #![trigger es[k]] b < k < i ==> es[k] != (Op::Unsub { id }),
    ensures is_sub(ss[i], id), taken(ss, es, id, b + 1, i) + pend(ss[i], id) =~= posted(es, id, b + 1, i),
    decreases i - b,
{
    assert(mstep(ss, es, b));
    if i > b + 1 {
        let k = i - 1; thm_delivery(ss, es, id, b, k);
        assert(mstep(ss, es, k)); assert(es[k] != (Op::Unsub { id }));
        let s = ss[k]; let q = pend(s, id); let p = taken(ss, es, id, b + 1, k);
        match es[k] {
            Op::Get { id: g } => { if g == id && q.len() > 0 { assert(p.push(q[0]) + q.subrange(1, q.len() as int) =~= p + q); } }
            Op::Subscribe { id: g } => { counter_mono(ss, es, b + 1, k); assert(g != id); }
            Op::Put { msg, omit } => { if omit != id { assert(p + q.push(msg) =~= (p + q).push(msg)); } }
            _ => {}
        }
    }
}
/// M02: an operation on one subscription leaves every other one alone; ending removes exactly that one
pub proof fn thm_independent(ss: Seq<MB>, es: Seq<Op>, i: int, id: int, other: int)
    requires mhist(ss, es), 0 <= i < es.len(), id != other, es[i] == (Op::Get { id }) || es[i] == (Op::Clear { id }) || es[i] == (Op::Unsub { id }),
    ensures is_sub(ss[i + 1], other) == is_sub(ss[i], other), is_sub(ss[i], other) ==> pend(ss[i + 1], other) == pend(ss[i], other),
        es[i] == (Op::Unsub { id }) ==> !is_sub(ss[i + 1], id) && ss[i + 1].message_queues.dom().len() == ss[i].message_queues.dom().len() - 1,
        es[i] == (Op::Clear { id }) ==> is_sub(ss[i + 1], id) && pend(ss[i + 1], id).len() == 0,
{ assert(mstep(ss, es, i)); mhist_inv(ss, es, i); if es[i] == (Op::Unsub { id }) { assert(ss[i + 1].message_queues.dom() =~= ss[i].message_queues.dom().remove(id)); } }

// ---- the dynamic type of an object
pub uninterp spec fn dyn_is(p: int) -> bool;
