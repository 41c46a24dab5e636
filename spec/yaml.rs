// ---- P03: documents, and the tree a document stands for
#[verifier::ext_equal]
pub enum Y { Bad, Null, Sc { s: Seq<int> }, Sq { items: Seq<Y> }, Mp { keys: Seq<Y>, vals: Seq<Y> } }
/// what iterating over a document node visits: (key, value) for a map, the item itself for a sequence
pub open spec fn entries(y: Y) -> Seq<YI> {
    match y {
        Y::Sq { items } => Seq::new(items.len(), |i: int| YI { self_: items[i], first: Y::Bad, second: Y::Bad }),
        Y::Mp { keys, vals } => Seq::new(vals.len(), |i: int| YI { self_: Y::Bad, first: keys[i], second: vals[i] }),
        _ => Seq::empty(),
    }
}
/// documents of maps with scalar keys, scalars, and sequences of scalars or maps
pub open spec fn wf(y: Y) -> bool
    decreases y
{
    match y {
        Y::Sc { s } => true,
        Y::Sq { items } => forall|i: int| #![trigger items[i]] 0 <= i < items.len() ==> wf(items[i]) && !(items[i] is Sq),
        Y::Mp { keys, vals } => keys.len() == vals.len() && (forall|i: int| #![trigger keys[i]] 0 <= i < keys.len() ==> keys[i] is Sc)
            && (forall|i: int| #![trigger vals[i]] 0 <= i < vals.len() ==> wf(vals[i])),
        _ => false,
    }
}
pub uninterp spec fn yaml_exists(f: Seq<int>) -> bool;
pub uninterp spec fn yaml_parses(f: Seq<int>) -> bool;
pub uninterp spec fn yaml_doc(f: Seq<int>) -> Y;
/// the address of the next node allocated, a node that does not exist yet
pub uninterp spec fn fresh_node(d: Set<int>) -> int;
pub open spec fn newnode(parent: int, text: Seq<int>, terminal: bool) -> PN {
    PN { parent: parent, val_string: text, is_terminal: terminal, prop_list: Seq::empty(), dictionary: Map::empty() }
}
pub open spec fn with_child(n: PN, k: Seq<int>, c: int) -> PN { PN { dictionary: n.dictionary.insert(k, c), ..n } }
pub open spec fn with_item(n: PN, c: int) -> PN { PN { prop_list: n.prop_list.push(c), ..n } }
/// the tree after the document y was loaded into the node p
pub open spec fn fill(y: Y, p: int, h: Hp) -> Hp
    decreases y, 2int, 0int
{
    match y {
        Y::Sc { s } => { let f = fresh_node(h.dom()); let h1 = h.insert(f, newnode(p, s, true)); h1.insert(p, with_item(h1[p], f)) },
        Y::Sq { items } => fill_seq(y, 0, p, h),
        Y::Mp { keys, vals } => fill_map(y, 0, p, h),
        _ => h,
    }
}
/// ... the entries of the map y from number i on
pub open spec fn fill_map(y: Y, i: int, p: int, h: Hp) -> Hp
    decreases y, 1int, y->vals.len() - i
{
    if !(y is Mp) || i < 0 || i >= y->vals.len() { h }
    else { fill_map(y, i + 1, p, fill_entry(y->keys[i]->s, y->vals[i], p, h)) }
}
/// ... the entry k: v
pub open spec fn fill_entry(k: Seq<int>, v: Y, p: int, h: Hp) -> Hp
    decreases v, 3int, 0int
{
    let f = fresh_node(h.dom());
    match v {
        Y::Mp { keys, vals } => { let h1 = h.insert(f, newnode(p, Seq::empty(), false)); fill(v, f, h1.insert(p, with_child(h1[p], k, f))) },
        Y::Sc { s } => { let h1 = h.insert(f, newnode(p, s, true)); h1.insert(p, with_child(h1[p], k, f)) },
        Y::Sq { items } => fill_seq(v, 0, p, h),
        _ => h,
    }
}
/// ... the items of the sequence y from number i on
pub open spec fn fill_seq(y: Y, i: int, p: int, h: Hp) -> Hp
    decreases y, 1int, y->items.len() - i
{
    if !(y is Sq) || i < 0 || i >= y->items.len() { h }
    else { fill_seq(y, i + 1, p, fill(y->items[i], p, h)) }
}
/// nodes are only added, and only p and the new nodes are touched
pub open spec fn grown(p: int, h: Hp, h2: Hp) -> bool {
    &&& h.dom().subset_of(h2.dom())
    &&& forall|n: int| #![trigger h2[n]] h.dom().contains(n) && n != p ==> h2[n] == h[n]
    &&& h.dom().contains(p) ==> h2[p].parent == h[p].parent && h2[p].val_string == h[p].val_string && h2[p].is_terminal == h[p].is_terminal
}
/// the allocator returns a node that does not exist yet (a hypothesis, not an axiom)
pub open spec fn allocator() -> bool { forall|d: Set<int>| #![trigger fresh_node(d)] fresh_node(d) > 0 && !d.contains(fresh_node(d)) }
/// loading a document touches nothing but the node filled and new nodes
pub proof fn fill_grown(y: Y, p: int, h: Hp)
    requires allocator(), h.dom().contains(p)
    ensures grown(p, h, fill(y, p, h))
    decreases y, 2int, 0int
{
    match y {
        Y::Sq { items } => fill_seq_grown(y, 0, p, h),
        Y::Mp { keys, vals } => fill_map_grown(y, 0, p, h),
        _ => {},
    }
}
pub proof fn fill_map_grown(y: Y, i: int, p: int, h: Hp)
    requires allocator(), h.dom().contains(p), i >= 0
    ensures grown(p, h, fill_map(y, i, p, h))
    decreases y, 1int, y->vals.len() - i
{
    if y is Mp && i < y->vals.len() {
        let h1 = fill_entry(y->keys[i]->s, y->vals[i], p, h);
        fill_entry_grown(y->keys[i]->s, y->vals[i], p, h);
        fill_map_grown(y, i + 1, p, h1);
        assert(fill_map(y, i, p, h) == fill_map(y, i + 1, p, h1));
    }
}
pub proof fn fill_entry_grown(k: Seq<int>, v: Y, p: int, h: Hp)
    requires allocator(), h.dom().contains(p)
    ensures grown(p, h, fill_entry(k, v, p, h))
    decreases v, 3int, 0int
{
    let f = fresh_node(h.dom());
    match v {
        Y::Mp { keys, vals } => {
            let h1 = h.insert(f, newnode(p, Seq::empty(), false));
            let h2 = h1.insert(p, with_child(h1[p], k, f));
            fill_grown(v, f, h2);
        },
        Y::Sq { items } => fill_seq_grown(v, 0, p, h),
        _ => {},
    }
}
pub proof fn fill_seq_grown(y: Y, i: int, p: int, h: Hp)
    requires allocator(), h.dom().contains(p), i >= 0
    ensures grown(p, h, fill_seq(y, i, p, h))
    decreases y, 1int, y->items.len() - i
{
    if y is Sq && i < y->items.len() {
        let h1 = fill(y->items[i], p, h);
        fill_grown(y->items[i], p, h);
        fill_seq_grown(y, i + 1, p, h1);
        assert(fill_seq(y, i, p, h) == fill_seq(y, i + 1, p, h1));
    }
}
pub broadcast proof fn wf_map(y: Y, i: int)
    requires wf(y), y is Mp, 0 <= i < y->vals.len()
    ensures wf(#[trigger] y->vals[i]), y->keys[i] is Sc, y->keys.len() == y->vals.len()
{}
pub broadcast proof fn wf_seq(y: Y, i: int)
    requires wf(y), y is Sq, 0 <= i < y->items.len()
    ensures wf(#[trigger] y->items[i]), !(y->items[i] is Sq)
{}
pub broadcast proof fn entries_at(y: Y, i: int)
    requires 0 <= i < entries(y).len()
    ensures #[trigger] entries(y)[i] == (if y is Sq { YI { self_: y->items[i], first: Y::Bad, second: Y::Bad } } else { YI { self_: Y::Bad, first: y->keys[i], second: y->vals[i] } })
{}
pub broadcast proof fn entries_len(y: Y)
    ensures (#[trigger] entries(y)).len() == (if y is Sq { y->items.len() } else if y is Mp { y->vals.len() } else { 0 })
{}
pub broadcast proof fn insert_twice<K, V>(m: Map<K, V>, k: K, a: V, b: V)
    ensures #[trigger] m.insert(k, a).insert(k, b) == m.insert(k, b)
{ assert(m.insert(k, a).insert(k, b) =~= m.insert(k, b)); }
pub broadcast proof fn map_step(y: Y, i: int, p: int, h: Hp)
    requires y is Mp, 0 <= i < y->vals.len()
    ensures #[trigger] fill_map(y, i, p, h) == fill_map(y, i + 1, p, fill_entry(y->keys[i]->s, y->vals[i], p, h))
{}
pub broadcast proof fn seq_step(y: Y, i: int, p: int, h: Hp)
    requires y is Sq, 0 <= i < y->items.len()
    ensures #[trigger] fill_seq(y, i, p, h) == fill_seq(y, i + 1, p, fill(y->items[i], p, h))
{}
/// loading below another node commutes with changing the node p
pub proof fn fill_commute(y: Y, q: int, h: Hp, p: int, x: PN)
    requires allocator(), h.dom().contains(q), h.dom().contains(p), p != q
    ensures fill(y, q, h.insert(p, x)) == fill(y, q, h).insert(p, x)
    decreases y, 2int, 0int
{
    assert(h.insert(p, x).dom() =~= h.dom());
    match y {
        Y::Sc { s } => { assert(fill(y, q, h.insert(p, x)) =~= fill(y, q, h).insert(p, x)); },
        Y::Sq { items } => fill_seq_commute(y, 0, q, h, p, x),
        Y::Mp { keys, vals } => fill_map_commute(y, 0, q, h, p, x),
        _ => {},
    }
}
pub proof fn fill_map_commute(y: Y, i: int, q: int, h: Hp, p: int, x: PN)
    requires allocator(), h.dom().contains(q), h.dom().contains(p), p != q, i >= 0
    ensures fill_map(y, i, q, h.insert(p, x)) == fill_map(y, i, q, h).insert(p, x)
    decreases y, 1int, y->vals.len() - i
{
    if y is Mp && i < y->vals.len() {
        let k = y->keys[i]->s; let v = y->vals[i]; let h1 = fill_entry(k, v, q, h);
        fill_entry_commute(k, v, q, h, p, x); fill_entry_grown(k, v, q, h);
        fill_map_commute(y, i + 1, q, h1, p, x);
        assert(fill_map(y, i, q, h) == fill_map(y, i + 1, q, h1));
        assert(fill_map(y, i, q, h.insert(p, x)) == fill_map(y, i + 1, q, h1.insert(p, x)));
    }
}
pub proof fn fill_entry_commute(k: Seq<int>, v: Y, q: int, h: Hp, p: int, x: PN)
    requires allocator(), h.dom().contains(q), h.dom().contains(p), p != q
    ensures fill_entry(k, v, q, h.insert(p, x)) == fill_entry(k, v, q, h).insert(p, x)
    decreases v, 3int, 0int
{
    assert(h.insert(p, x).dom() =~= h.dom());
    let f = fresh_node(h.dom());
    match v {
        Y::Mp { keys, vals } => {
            let h1 = h.insert(f, newnode(q, Seq::empty(), false)); let h2 = h1.insert(q, with_child(h1[q], k, f));
            let g1 = h.insert(p, x).insert(f, newnode(q, Seq::empty(), false)); let g2 = g1.insert(q, with_child(g1[q], k, f));
            assert(g2 =~= h2.insert(p, x));
            fill_commute(v, f, h2, p, x);
        },
        Y::Sc { s } => { assert(fill_entry(k, v, q, h.insert(p, x)) =~= fill_entry(k, v, q, h).insert(p, x)); },
        Y::Sq { items } => fill_seq_commute(v, 0, q, h, p, x),
        _ => {},
    }
}
pub proof fn fill_seq_commute(y: Y, i: int, q: int, h: Hp, p: int, x: PN)
    requires allocator(), h.dom().contains(q), h.dom().contains(p), p != q, i >= 0
    ensures fill_seq(y, i, q, h.insert(p, x)) == fill_seq(y, i, q, h).insert(p, x)
    decreases y, 1int, y->items.len() - i
{
    if y is Sq && i < y->items.len() {
        let h1 = fill(y->items[i], q, h);
        fill_commute(y->items[i], q, h, p, x); fill_grown(y->items[i], q, h);
        fill_seq_commute(y, i + 1, q, h1, p, x);
        assert(fill_seq(y, i, q, h) == fill_seq(y, i + 1, q, h1));
        assert(fill_seq(y, i, q, h.insert(p, x)) == fill_seq(y, i + 1, q, h1.insert(p, x)));
    }
}
pub broadcast proof fn fill_link(y: Y, q: int, h: Hp, p: int, x: PN)
    requires allocator(), h.dom().contains(q), h.dom().contains(p), p != q
    ensures #[trigger] fill(y, q, h).insert(p, x) == fill(y, q, h.insert(p, x))
{ fill_commute(y, q, h, p, x); }
pub broadcast proof fn fill_other(y: Y, q: int, h: Hp, p: int)
    requires allocator(), h.dom().contains(q), h.dom().contains(p), p != q
    ensures (#[trigger] fill(y, q, h)[p]) == h[p]
{ fill_grown(y, q, h); }
pub broadcast proof fn fill_dom(y: Y, q: int, h: Hp, p: int)
    requires allocator(), h.dom().contains(q), h.dom().contains(p)
    ensures #[trigger] fill(y, q, h).dom().contains(p)
{ fill_grown(y, q, h); }
pub broadcast proof fn fill_seq_dom(y: Y, i: int, q: int, h: Hp, p: int)
    requires allocator(), h.dom().contains(q), h.dom().contains(p), i >= 0
    ensures #[trigger] fill_seq(y, i, q, h).dom().contains(p)
{ fill_seq_grown(y, i, q, h); }
