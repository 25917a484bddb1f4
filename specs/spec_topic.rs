//@include spec_filter.rs
// ---- the tree as a table: (path, group) -> leaves ----
pub open spec fn here(h: SubHier, share: Option<Seq<u8>>) -> Seq<SubscriptionLeaf> {
    match share { None => h.subs@, Some(g) => if h.shared@.dom().contains(g) { h.shared@[g]@ } else { Seq::empty() } }
}
pub open spec fn at(h: SubHier, p: Path, share: Option<Seq<u8>>) -> Seq<SubscriptionLeaf>
    decreases p.len(),
{
    if p.len() == 0 { here(h, share) }
    else if h.children@.dom().contains(p[0]) { at(h.children@[p[0]], p.sk(1), share) }
    else { Seq::empty() }
}
pub open spec fn tat(t: SubscriptionTree, p: Path, share: Option<Seq<u8>>) -> Seq<SubscriptionLeaf> {
    if p.len() > 0 && t.0@.dom().contains(p[0]) { at(t.0@[p[0]], p.sk(1), share) } else { Seq::empty() }
}
pub open spec fn uniq(s: Seq<SubscriptionLeaf>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).identifier != (#[trigger] s[j]).identifier }
pub open spec fn wf(h: SubHier) -> bool { forall|p: Path, s: Option<Seq<u8>>| uniq(#[trigger] at(h, p, s)) }
pub open spec fn twf(t: SubscriptionTree) -> bool { forall|p: Path, s: Option<Seq<u8>>| uniq(#[trigger] tat(t, p, s)) }
/// one list after a subscription: the subscriber's entry replaced, the others kept
pub open spec fn added(old: Seq<SubscriptionLeaf>, new: Seq<SubscriptionLeaf>, x: SubscriptionLeaf) -> bool {
    forall|l: SubscriptionLeaf| #[trigger] new.contains(l) <==> (l == x || (old.contains(l) && l.identifier != x.identifier))
}
pub open spec fn dropped(old: Seq<SubscriptionLeaf>, new: Seq<SubscriptionLeaf>, id: u128) -> bool {
    forall|l: SubscriptionLeaf| #[trigger] new.contains(l) <==> (old.contains(l) && l.identifier != id)
}

// ---- what a publication collects ----
pub type Sub = (u128, Sender<ClientEvent>, QosLevel);
pub open spec fn below(m: Map<Seq<u8>, SubHier>, k: Seq<u8>, t: Path, share: Option<Seq<u8>>) -> ISet<SubscriptionLeaf>
    decreases t.len(), 0int,
{ if t.len() > 0 && m.dom().contains(k) { hits(m[k], t.sk(1), share) } else { ISet::empty() } }
pub open spec fn mine(h: SubHier, t: Path, share: Option<Seq<u8>>) -> ISet<SubscriptionLeaf>
    decreases t.len(), 1int,
{ if t.len() == 0 { here(h, share).to_iset() } else { below(h.children@, t[0], t, share).union(below(h.children@, PLUS(), t, share)) } }
pub open spec fn hashed(m: Map<Seq<u8>, SubHier>, share: Option<Seq<u8>>) -> ISet<SubscriptionLeaf> {
    if m.dom().contains(HASH()) { here(m[HASH()], share).to_iset() } else { ISet::empty() }
}
pub open spec fn hits(h: SubHier, t: Path, share: Option<Seq<u8>>) -> ISet<SubscriptionLeaf>
    decreases t.len(), 2int,
{ mine(h, t, share).union(hashed(h.children@, share)) }
pub open spec fn thits(tr: SubscriptionTree, t: Path, share: Option<Seq<u8>>) -> ISet<SubscriptionLeaf> {
    if t.len() == 0 { hashed(tr.0@, share) }
    else if dollar(t) { below(tr.0@, t[0], t, share) }
    else { below(tr.0@, t[0], t, share).union(below(tr.0@, PLUS(), t, share)).union(hashed(tr.0@, share)) }
}
pub open spec fn uniq_subs(v: Seq<Sub>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).0 }
pub open spec fn covers(v: Seq<Sub>, l: SubscriptionLeaf) -> bool { exists|j: int| 0 <= j < v.len() && (#[trigger] v[j]).0 == l.identifier && v[j].2 as u8 >= l.qos as u8 }
pub open spec fn qos_from(a: Seq<Sub>, v: Seq<Sub>, j: int, hit: ISet<SubscriptionLeaf>) -> bool {
    (j < a.len() && v[j].2 == a[j].2) || exists|l: SubscriptionLeaf| #[trigger] hit.contains(l) && l.identifier == v[j].0 && l.qos == v[j].2
}
pub open spec fn bridge_from(a: Seq<Sub>, v: Seq<Sub>, j: int, hit: ISet<SubscriptionLeaf>) -> bool {
    (j < a.len() && v[j].1 == a[j].1) || exists|l: SubscriptionLeaf| #[trigger] hit.contains(l) && l.identifier == v[j].0 && l.bridge == v[j].1
}
/// v is a with the leaves of hit merged in: one entry per identifier, with the highest level of service
#[verifier::opaque]
pub open spec fn merged(a: Seq<Sub>, v: Seq<Sub>, hit: ISet<SubscriptionLeaf>) -> bool {
    a.len() <= v.len()
    && (forall|j: int| 0 <= j < a.len() ==> (#[trigger] v[j]).0 == a[j].0 && v[j].1 == a[j].1 && v[j].2 as u8 >= a[j].2 as u8)
    && (forall|j: int| 0 <= j < v.len() ==> #[trigger] qos_from(a, v, j, hit))
    && (forall|j: int| 0 <= j < v.len() ==> #[trigger] bridge_from(a, v, j, hit))
    && (forall|l: SubscriptionLeaf| #[trigger] hit.contains(l) ==> covers(v, l))
    && (uniq_subs(a) ==> uniq_subs(v))
}
pub broadcast proof fn lemma_merge_trans(a: Seq<Sub>, b: Seq<Sub>, c: Seq<Sub>, x: ISet<SubscriptionLeaf>, y: ISet<SubscriptionLeaf>)
    requires #[trigger] merged(a, b, x), #[trigger] merged(b, c, y),
    ensures merged(a, c, #[trigger] x.union(y)),
{
    reveal(merged);
    let u = x.union(y);
    assert forall|j: int| 0 <= j < a.len() implies (#[trigger] c[j]).0 == a[j].0 && c[j].1 == a[j].1 && c[j].2 as u8 >= a[j].2 as u8 by { assert(b[j].0 == a[j].0); }
    assert forall|j: int| 0 <= j < c.len() implies #[trigger] qos_from(a, c, j, u) by {
        assert(qos_from(b, c, j, y));
        if !(j < b.len() && c[j].2 == b[j].2) {
            let l = choose|l: SubscriptionLeaf| #[trigger] y.contains(l) && l.identifier == c[j].0 && l.qos == c[j].2;
            assert(u.contains(l));
        } else {
            assert(qos_from(a, b, j, x));
            if !(j < a.len() && b[j].2 == a[j].2) {
                let l = choose|l: SubscriptionLeaf| #[trigger] x.contains(l) && l.identifier == b[j].0 && l.qos == b[j].2;
                assert(c[j].0 == b[j].0);
                assert(u.contains(l));
            }
        }
    }
    assert forall|j: int| 0 <= j < c.len() implies #[trigger] bridge_from(a, c, j, u) by {
        assert(bridge_from(b, c, j, y));
        if !(j < b.len() && c[j].1 == b[j].1) {
            let l = choose|l: SubscriptionLeaf| #[trigger] y.contains(l) && l.identifier == c[j].0 && l.bridge == c[j].1;
            assert(u.contains(l));
        } else {
            assert(bridge_from(a, b, j, x));
            if !(j < a.len() && b[j].1 == a[j].1) {
                let l = choose|l: SubscriptionLeaf| #[trigger] x.contains(l) && l.identifier == b[j].0 && l.bridge == b[j].1;
                assert(c[j].0 == b[j].0);
                assert(u.contains(l));
            }
        }
    }
    assert forall|l: SubscriptionLeaf| #[trigger] u.contains(l) implies covers(c, l) by {
        if x.contains(l) {
            assert(covers(b, l));
            let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).0 == l.identifier && b[j].2 as u8 >= l.qos as u8;
            assert(c[j].0 == b[j].0);
        } else { assert(y.contains(l)); }
    }
}
proof fn lemma_merge_none(a: Seq<Sub>)
    ensures merged(a, a, ISet::empty()),
{
    reveal(merged);
    assert forall|j: int| 0 <= j < a.len() implies #[trigger] qos_from(a, a, j, ISet::empty()) by {}
    assert forall|j: int| 0 <= j < a.len() implies #[trigger] bridge_from(a, a, j, ISet::empty()) by {}
}

pub broadcast proof fn lemma_union_none(x: ISet<SubscriptionLeaf>, y: ISet<SubscriptionLeaf>)
    ensures y == ISet::<SubscriptionLeaf>::empty() ==> #[trigger] x.union(y) == x, x == ISet::<SubscriptionLeaf>::empty() ==> x.union(y) == y,
{
    if y == ISet::<SubscriptionLeaf>::empty() { assert(x.union(y) =~= x); }
    if x == ISet::<SubscriptionLeaf>::empty() { assert(x.union(y) =~= y); }
}
pub broadcast group group_merge { lemma_merge_trans, lemma_union_none }
/// the leaves of a list that a loop over it has seen
pub open spec fn seen(list: Seq<SubscriptionLeaf>, rem: Seq<SubscriptionLeaf>) -> ISet<SubscriptionLeaf> { list.take(list.len() - rem.len()).to_iset() }
pub open spec fn suffix(list: Seq<SubscriptionLeaf>, rem: Seq<SubscriptionLeaf>) -> bool { rem.len() <= list.len() && rem == list.sk(list.len() - rem.len()) }
proof fn lemma_take_set(s: Seq<SubscriptionLeaf>, k: int)
    requires 0 <= k < s.len(),
    ensures s.take(k + 1).to_iset() == s.take(k).to_iset().union(ISet::empty().insert(s[k])),
{
    let a = s.take(k + 1).to_iset();
    let b = s.take(k).to_iset().union(ISet::empty().insert(s[k]));
    assert forall|l: SubscriptionLeaf| a.contains(l) <==> b.contains(l) by {
        if a.contains(l) {
            let i = choose|i: int| 0 <= i < k + 1 && #[trigger] s.take(k + 1)[i] == l;
            if i < k { assert(s.take(k)[i] == l); }
        }
        if s.take(k).contains(l) { let i = choose|i: int| 0 <= i < k && #[trigger] s.take(k)[i] == l; assert(s.take(k + 1)[i] == l); }
        if l == s[k] { assert(s.take(k + 1)[k] == l); }
    }
    assert(a =~= b);
}
proof fn lemma_seen(b: ISet<SubscriptionLeaf>, list: Seq<SubscriptionLeaf>, rem: Seq<SubscriptionLeaf>)
    ensures
        rem.len() == 0 ==> seen(list, rem) == list.to_iset(),
        rem == list ==> seen(list, rem) == ISet::<SubscriptionLeaf>::empty() && suffix(list, rem),
        suffix(list, rem) && rem.len() > 0 ==> suffix(list, rem.sk(1))
            && b.union(seen(list, rem.sk(1))) == b.union(seen(list, rem)).union(ISet::empty().insert(rem[0])),
{
    if rem.len() == 0 { assert(list.take(list.len() as int) =~= list); }
    if rem == list { assert(list.take(0) =~= Seq::empty()); assert(list.sk(0) =~= list); assert(seen(list, rem) =~= ISet::<SubscriptionLeaf>::empty()); }
    if suffix(list, rem) && rem.len() > 0 {
        let k = list.len() - rem.len();
        lemma_take_set(list, k);
        assert(rem.sk(1) =~= list.sk(k + 1));
        assert(b.union(seen(list, rem.sk(1))) =~= b.union(seen(list, rem)).union(ISet::empty().insert(rem[0])));
    }
}
