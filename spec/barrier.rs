// ---- one barrier: the transition relation of its critical sections, and what every history of them guarantees.
pub open spec fn frame_b(s: Barrier, t: Barrier) -> bool { t.name == s.name && t.num_waiters == s.num_waiters }
/// the monitor invariant (true whenever the lock is free); the bound on completed rounds is an assumption
pub open spec fn jb(s: Barrier) -> bool { 0 <= s.waiting < s.num_waiters && 0 <= s.barrier_count }
pub open spec fn arrive_done(s: Barrier, t: Barrier) -> bool
    { frame_b(s, t) && !s.corrupted && !t.corrupted && s.waiting + 1 == s.num_waiters && t.waiting == 0 && t.barrier_count == s.barrier_count + 1 }
pub open spec fn arrive_wait(s: Barrier, t: Barrier) -> bool
    { frame_b(s, t) && !s.corrupted && !t.corrupted && s.waiting + 1 < s.num_waiters && t.waiting == s.waiting + 1 && t.barrier_count == s.barrier_count }
pub open spec fn same_b(s: Barrier, t: Barrier) -> bool
    { frame_b(s, t) && t.waiting == s.waiting && t.barrier_count == s.barrier_count && t.corrupted == s.corrupted }
pub open spec fn rejected(s: Barrier, t: Barrier) -> bool { s.corrupted && same_b(s, t) }
/// the round r has been decided, one way or the other, in state s
pub open spec fn decided(s: Barrier, r: int) -> bool { s.barrier_count != r || s.corrupted }
pub open spec fn wake_ok(r: int, s: Barrier, t: Barrier) -> bool { s.barrier_count != r && same_b(s, t) }
pub open spec fn wake_corrupt(r: int, s: Barrier, t: Barrier) -> bool { s.barrier_count == r && s.corrupted && same_b(s, t) }
pub open spec fn wake_timeout(r: int, s: Barrier, t: Barrier) -> bool
    { frame_b(s, t) && s.barrier_count == r && !s.corrupted && t.corrupted && t.waiting == s.waiting && t.barrier_count == s.barrier_count }
pub open spec fn new_barrier(t: Barrier, name: Seq<int>, n: int) -> bool { t.name == name && t.num_waiters == n && t.waiting == 0 && 0 <= t.barrier_count < 4294967295 && !t.corrupted }
/// a timeout of 0 means "as long as necessary": at least 1000 days
pub open spec fn wait_ns(asked_ms: int, used_ns: int) -> bool { if asked_ms == 0 { used_ns >= 86400000000000000 } else { used_ns == asked_ms * 1000000 } }

// ---- histories
pub struct Ev { pub kind: int, pub from: int }   // 0 last arrival, 1 arrival that waits, 2 arrival rejected; 3 normal, 4 corrupt, 5 timeout end of the wait that arrived at event `from`
pub open spec fn step(ss: Seq<Barrier>, es: Seq<Ev>, i: int) -> bool {
    let s = ss[i]; let t = ss[i + 1]; let e = es[i];
    if e.kind == 0 { arrive_done(s, t) } else if e.kind == 1 { arrive_wait(s, t) } else if e.kind == 2 { rejected(s, t) }
    else { 0 <= e.from < i && es[e.from].kind == 1 && ({ let r = ss[e.from].barrier_count;
        if e.kind == 3 { wake_ok(r, s, t) } else if e.kind == 4 { wake_corrupt(r, s, t) } else { e.kind == 5 && wake_timeout(r, s, t) } }) }
}
pub open spec fn hist(ss: Seq<Barrier>, es: Seq<Ev>) -> bool {
    ss.len() == es.len() + 1 && ss[0].num_waiters >= 1 && ss[0].waiting == 0 && !ss[0].corrupted && ss[0].barrier_count >= 0 && (forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> step(ss, es, i))
}
/// arrivals counted before event i
pub open spec fn arr(es: Seq<Ev>, i: int) -> int decreases i { if i <= 0 { 0 } else { arr(es, i - 1) + (if es[i - 1].kind == 0 || es[i - 1].kind == 1 { 1int } else { 0int }) } }
pub proof fn hist_inv(ss: Seq<Barrier>, es: Seq<Ev>, i: int)
    requires hist(ss, es), 0 <= i <= es.len(),
    ensures jb(ss[i]), ss[i].num_waiters == ss[0].num_waiters, arr(es, i) == ss[0].num_waiters * (ss[i].barrier_count - ss[0].barrier_count) + ss[i].waiting, ss[i].barrier_count >= ss[0].barrier_count,
    decreases i,
{
    if i > 0 {
        hist_inv(ss, es, i - 1);
        assert(step(ss, es, i - 1));
        let n = ss[0].num_waiters; let b = ss[i - 1].barrier_count - ss[0].barrier_count;
        assert(n * (b + 1) == n * b + n) by (nonlinear_arith);
    }
}
pub proof fn hist_mono(ss: Seq<Barrier>, es: Seq<Ev>, i: int, k: int)
    requires hist(ss, es), 0 <= i <= k <= es.len(),
    ensures ss[k].barrier_count >= ss[i].barrier_count, ss[i].corrupted ==> ss[k].corrupted && ss[k].barrier_count == ss[i].barrier_count,
    decreases k - i,
{
    if i < k { hist_mono(ss, es, i, k - 1); assert(step(ss, es, k - 1)); }
}
/// the round (numbered from 0) of the arrival at event j: arrivals are divided in order into groups of N
pub open spec fn group(es: Seq<Ev>, n: int, j: int) -> int { arr(es, j) / n }
pub proof fn group_is(ss: Seq<Barrier>, es: Seq<Ev>, j: int)
    requires hist(ss, es), 0 <= j < es.len(),
    ensures group(es, ss[0].num_waiters, j) == ss[j].barrier_count - ss[0].barrier_count,
{
    hist_inv(ss, es, j);
    let n = ss[0].num_waiters; let b = ss[j].barrier_count - ss[0].barrier_count; let w = ss[j].waiting;
    assert((n * b + w) / n == b) by (nonlinear_arith) requires n > 0, 0 <= w < n;
}
/// B01: a normal return at event k means that all n parties of the round have arrived before (or at) k ...
pub proof fn thm_b01_safe(ss: Seq<Barrier>, es: Seq<Ev>, k: int)
    requires hist(ss, es), 0 <= k < es.len(),
    ensures
        es[k].kind == 3 ==> arr(es, k) >= ss[0].num_waiters * (group(es, ss[0].num_waiters, es[k].from) + 1),
        es[k].kind == 0 ==> arr(es, k + 1) == ss[0].num_waiters * (group(es, ss[0].num_waiters, k) + 1),
        es[k].kind == 1 ==> arr(es, k + 1) < ss[0].num_waiters * (group(es, ss[0].num_waiters, k) + 1),
        es[k].kind == 0 ==> ss[k + 1].waiting == 0 && jb(ss[k + 1]),
{
    let n = ss[0].num_waiters; let e = es[k];
    assert(step(ss, es, k));
    hist_inv(ss, es, k); hist_inv(ss, es, k + 1); group_is(ss, es, k);
    let b0 = ss[0].barrier_count;
    let bk = ss[k].barrier_count - b0;
    assert(n * (bk + 1) == n * bk + n) by (nonlinear_arith);
    if e.kind == 3 {
        let j = e.from; assert(step(ss, es, j)); group_is(ss, es, j); hist_mono(ss, es, j, k); hist_inv(ss, es, j);
        let g = ss[j].barrier_count - b0;
        assert(bk >= g + 1);
        assert(n * bk >= n * (g + 1)) by (nonlinear_arith) requires bk >= g + 1, n >= 1;
    }
}
/// ... and once all n parties of its round have arrived (before any of them timed out: later arrivals are not counted), every wait of the round ends normally
pub proof fn thm_b01_live(ss: Seq<Barrier>, es: Seq<Ev>, k: int)
    requires hist(ss, es), 0 <= k < es.len(), es[k].kind >= 3, arr(es, k) >= ss[0].num_waiters * (group(es, ss[0].num_waiters, es[k].from) + 1),
    ensures es[k].kind == 3, decided(ss[k], ss[es[k].from].barrier_count),
{
    let n = ss[0].num_waiters; let j = es[k].from;
    assert(step(ss, es, k)); assert(step(ss, es, j));
    hist_inv(ss, es, k); hist_inv(ss, es, j); group_is(ss, es, j); hist_mono(ss, es, j, k);
    let g = ss[j].barrier_count - ss[0].barrier_count; let bk = ss[k].barrier_count - ss[0].barrier_count; let w = ss[k].waiting;
    if bk == g { assert(n * (g + 1) == n * g + n) by (nonlinear_arith); assert(n * bk + w < n * (g + 1)); assert(false); }
}
/// B02: after a timeout (event t) no arrival is accepted, every wait of that round ends corrupt, no second timeout happens, and the round counter stands still
pub proof fn thm_b02_after(ss: Seq<Barrier>, es: Seq<Ev>, t: int, k: int)
    requires hist(ss, es), 0 <= t < k < es.len(), es[t].kind == 5,
    ensures
        es[k].kind == 2 || es[k].kind == 3 || es[k].kind == 4,
        es[k].kind >= 3 && ss[es[k].from].barrier_count == ss[es[t].from].barrier_count ==> es[k].kind == 4,
        // a normal return after the timeout belongs to a round completed before the timeout
        es[k].kind == 3 ==> decided_round(ss, es, t, k),
        ss[k].corrupted && ss[k].barrier_count == ss[t].barrier_count,
{
    assert(step(ss, es, t)); assert(step(ss, es, k));
    hist_mono(ss, es, t + 1, k);
    if es[k].kind >= 3 {
        let j = es[k].from; assert(step(ss, es, j));
        if j > t { hist_mono(ss, es, t + 1, j); assert(es[j].kind == 1); assert(false); }
        hist_mono(ss, es, j, t);
    }
}
pub open spec fn decided_round(ss: Seq<Barrier>, es: Seq<Ev>, t: int, k: int) -> bool { es[k].from < t && ss[t].barrier_count > ss[es[k].from].barrier_count }
/// B02: without a timeout before it, no wait ends corrupt and no arrival is rejected; a timeout is always the first event of its kind
pub proof fn thm_b02_before(ss: Seq<Barrier>, es: Seq<Ev>, k: int)
    requires hist(ss, es), 0 <= k < es.len(), forall|t: int| #![trigger es[t]] 0 <= t < k ==> es[t].kind != 5,
    ensures es[k].kind != 2 && es[k].kind != 4, !ss[k].corrupted,
{
    no_corrupt(ss, es, k); assert(step(ss, es, k));
}
pub proof fn no_corrupt(ss: Seq<Barrier>, es: Seq<Ev>, k: int)
    requires hist(ss, es), 0 <= k <= es.len(), forall|t: int| #![trigger es[t]] 0 <= t < k ==> es[t].kind != 5,
    ensures !ss[k].corrupted,
    decreases k,
{
    if k > 0 { no_corrupt(ss, es, k - 1); assert(step(ss, es, k - 1)); assert(es[k - 1].kind != 5); }
}
/// B02: only an undecided wait can time out
pub proof fn thm_b02_undecided(ss: Seq<Barrier>, es: Seq<Ev>, k: int)
    requires hist(ss, es), 0 <= k < es.len(), es[k].kind == 5,
    ensures arr(es, k) < ss[0].num_waiters * (group(es, ss[0].num_waiters, es[k].from) + 1),
{
    let n = ss[0].num_waiters; let j = es[k].from;
    assert(step(ss, es, k)); assert(step(ss, es, j));
    hist_inv(ss, es, k); group_is(ss, es, j); hist_inv(ss, es, j);
    let g = ss[j].barrier_count - ss[0].barrier_count;
    assert(n * (g + 1) == n * g + n) by (nonlinear_arith);
}
