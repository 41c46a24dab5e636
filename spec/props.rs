// ---- P01: walking the dictionaries
pub type Hp = Map<int, PN>;
/// the node reached from n along path[i..], or 0
pub open spec fn walk(h: Hp, n: int, path: Seq<Seq<int>>, i: int) -> int
    decreases path.len() - i
{
    if i < 0 || i >= path.len() { n }
    else if h[n].dictionary.dom().contains(path[i]) { walk(h, h[n].dictionary[path[i]], path, i + 1) }
    else { 0 }
}
/// dictionaries lead to nodes (never null)
pub open spec fn tree(h: Hp) -> bool { forall|n: int, k: Seq<int>| #![trigger h[n].dictionary[k]] h[n].dictionary.dom().contains(k) ==> h[n].dictionary[k] > 0 }
/// parents lead to a node without parent in finitely many steps (a hypothesis about the tree given)
pub uninterp spec fn depth(n: int) -> int;
pub open spec fn chains(h: Hp) -> bool { forall|n: int| #![trigger h[n].parent] h[n].parent >= 0 && (h[n].parent > 0 ==> 0 <= depth(h[n].parent) < depth(n)) }
pub open spec fn rest(p: Seq<Seq<int>>) -> Seq<Seq<int>> { p.subrange(1, p.len() as int) }
pub proof fn walk_shift(h: Hp, n: int, p: Seq<Seq<int>>, i: int)
    requires 0 <= i < p.len()
    ensures walk(h, n, rest(p), i) == walk(h, n, p, i + 1)
    decreases p.len() - i
{
    if i + 1 < p.len() {
        assert(rest(p)[i] == p[i + 1]);
        walk_shift(h, h[n].dictionary[p[i + 1]], p, i + 1);
    }
}
pub broadcast proof fn walk_rest(h: Hp, n: int, p: Seq<Seq<int>>)
    requires p.len() > 0
    ensures #[trigger] walk(h, n, p.subrange(1, p.len() as int), 0) == walk(h, n, p, 1)
{ walk_shift(h, n, p, 0); }
pub proof fn walk_pos(h: Hp, n: int, p: Seq<Seq<int>>, i: int)
    requires tree(h), n > 0
    ensures walk(h, n, p, i) >= 0
    decreases p.len() - i
{ if 0 <= i < p.len() && h[n].dictionary.dom().contains(p[i]) { walk_pos(h, h[n].dictionary[p[i]], p, i + 1); } }

// ---- P04: dumping
/// what dumping node n with this indentation writes (the equation proved for dump defines it)
pub uninterp spec fn dump_txt(h: Hp, n: int, ind: Seq<int>) -> Seq<int>;
pub open spec fn deeper(ind: Seq<int>) -> Seq<int> { ind + seq![32int, 32int] }
pub open spec fn item_txt(h: Hp, n: int, ind: Seq<int>) -> Seq<int> { if h[n].is_terminal { ind + h[n].val_string + seq![10int] } else { dump_txt(h, n, deeper(ind)) } }
pub open spec fn items_txt(h: Hp, l: Seq<int>, ind: Seq<int>, i: int) -> Seq<int>
    decreases i
{ if i <= 0 { Seq::empty() } else { items_txt(h, l, ind, i - 1) + item_txt(h, l[i - 1], ind) } }
pub open spec fn entry_txt(h: Hp, k: Seq<int>, n: int, ind: Seq<int>) -> Seq<int> {
    ind + k + seq![58int, 32int, 32int] + (if h[n].is_terminal { h[n].val_string + seq![10int] } else { seq![10int] + dump_txt(h, n, deeper(ind)) })
}
pub open spec fn ents_txt(h: Hp, d: Map<Seq<int>, int>, ks: Seq<Seq<int>>, ind: Seq<int>, i: int) -> Seq<int>
    decreases i
{ if i <= 0 { Seq::empty() } else { ents_txt(h, d, ks, ind, i - 1) + entry_txt(h, ks[i - 1], d[ks[i - 1]], ind) } }
/// one level of a dump; heads are the two headings
pub open spec fn dump_one(h: Hp, n: int, ks: Seq<Seq<int>>, ind: Seq<int>, hi: Seq<int>, he: Seq<int>) -> Seq<int> {
    if h[n].is_terminal { ind + h[n].val_string + seq![10int] }
    else {
        (if h[n].prop_list.len() == 0 { Seq::empty() } else { hi + items_txt(h, h[n].prop_list, ind, h[n].prop_list.len() as int) })
        + (if ks.len() == 0 { Seq::empty() } else { he + ents_txt(h, h[n].dictionary, ks, ind, ks.len() as int) })
    }
}
/// children lead to nodes, and downwards every path ends (a hypothesis about the tree given)
pub uninterp spec fn height(n: int) -> int;
pub open spec fn downward(h: Hp) -> bool {
    (forall|n: int, k: Seq<int>| #![trigger h[n].dictionary[k]] h[n].dictionary.dom().contains(k) ==> h[n].dictionary[k] > 0 && 0 <= height(h[n].dictionary[k]) < height(n))
    && (forall|n: int, i: int| #![trigger h[n].prop_list[i]] 0 <= i < h[n].prop_list.len() ==> h[n].prop_list[i] > 0 && 0 <= height(h[n].prop_list[i]) < height(n))
}
pub broadcast proof fn items_step(h: Hp, l: Seq<int>, ind: Seq<int>, i: int)
    requires i >= 0
    ensures #[trigger] items_txt(h, l, ind, i + 1) == items_txt(h, l, ind, i) + item_txt(h, l[i], ind)
{}
pub broadcast proof fn ents_step(h: Hp, d: Map<Seq<int>, int>, ks: Seq<Seq<int>>, ind: Seq<int>, i: int)
    requires i >= 0
    ensures #[trigger] ents_txt(h, d, ks, ind, i + 1) == ents_txt(h, d, ks, ind, i) + entry_txt(h, ks[i], d[ks[i]], ind)
{}
