//@unit topics
//@include shim_base.rs
//@include shim_coll.rs
#[verifier::external_body]
pub struct ClientEvent {}
#[verifier::external_body]
pub struct MqttError {}
pub uninterp spec fn is_conv(e: MqttError) -> bool;
pub open spec fn ob(x: Option<String>) -> Option<Seq<u8>> { match x { None => None, Some(s) => Some(sb(s)) } }
//@type packets::enums::QosLevel derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord)
//@include qos_ord.rs
//@type topic_heir::SubscriptionLeaf
//@type topic_heir::SubHier
//@type topic_heir::SubscriptionTree
//@include spec_topic.rs
//@include spec_table.rs

//@fn topic_heir::SubscriptionLeaf::new (qos, identifier, bridge) -> r
    ensures r.qos == qos, r.identifier == identifier, r.bridge == bridge,
//@end
//@fn topic_heir::SubHier::new () -> r
    ensures forall|p: Path, s: Option<Seq<u8>>| (#[trigger] at(r, p, s)).len() == 0,
//@end
//@fn topic_heir::SubscriptionTree::new () -> r
    ensures forall|p: Path, s: Option<Seq<u8>>| (#[trigger] tat(r, p, s)).len() == 0, twf(r),
//@end

// ================= topics and filters =================
//@fn utils::is_valid_filter (levels) -> r
    ensures r == ok_filter(levels_of(levels@)),
//@loop 0
    invariant
        $it0.hi() == levels@.len(), $it0.lo() <= $it0.hi(), $it0.over(levels@),
        !(levels@.len() == 1 && sb(levels@[0]).len() == 0),
        forall|i: int| 0 <= i < $it0.lo() ==> ok_level(levels_of(levels@), i),
    ensures forall|i: int| 0 <= i < levels@.len() ==> ok_level(levels_of(levels@), i),
    decreases $it0.hi() - $it0.lo(),
//@start
    proof { assert(levels@.len() == 1 ==> levels_of(levels@)[0] == sb(levels@[0])); }
//@loopstart 0
    proof {
        let ghost k = $it0.lo();
        let ghost lv = levels_of(levels@);
        assert(k < levels@.len() ==> lv[k] == sb(levels@[k]));
        let ghost g = ok_level(lv, k);
    }
//@end
proof fn lemma_split_nonempty(b: Seq<u8>, c: u8)
    ensures split_at(b, c).len() > 0,
    decreases b.len(),
{ if b.len() > 0 { lemma_split_nonempty(b.sk(1), c); } }
proof fn lemma_strs()
    ensures
        forall|t: Seq<&'static str>| #![trigger strs(t)] strs(t).len() == t.len(),
        forall|t: Seq<&'static str>, i: int| #![trigger strs(t)[i]] 0 <= i < t.len() ==> strs(t)[i] == encode_utf8(t[i]@),
        forall|t: Seq<&'static str>| #![trigger strs(t.remove(0))] t.len() > 0 ==> strs(t.remove(0)) == strs(t).sk(1),
        forall|t: Seq<&'static str>, i: int, x: &'static str| #![trigger strs(t.update(i, x))] 0 <= i < t.len() ==> strs(t.update(i, x)) == strs(t).update(i, encode_utf8(x@)),
        forall|t: Seq<String>, x: String| #![trigger levels_of(t.push(x))] levels_of(t.push(x)) == levels_of(t).push(sb(x)),
{
    assert forall|t: Seq<&'static str>| #![trigger strs(t.remove(0))] t.len() > 0 implies strs(t.remove(0)) == strs(t).sk(1) by { assert(strs(t.remove(0)) =~= strs(t).sk(1)); }
    assert forall|t: Seq<&'static str>, i: int, x: &'static str| #![trigger strs(t.update(i, x))] 0 <= i < t.len() implies strs(t.update(i, x)) == strs(t).update(i, encode_utf8(x@)) by {
        assert(strs(t.update(i, x)) =~= strs(t).update(i, encode_utf8(x@))); }
    assert forall|t: Seq<String>, x: String| #![trigger levels_of(t.push(x))] levels_of(t.push(x)) == levels_of(t).push(sb(x)) by { assert(levels_of(t.push(x)) =~= levels_of(t).push(sb(x))); }
}
//@fn utils::tokenise_topic (value) -> r
    ensures match r {
        Ok((levels, share)) => address(sb(value)) == Some((levels_of(levels@), ob(share))),
        Err(e) => address(sb(value)) is None },
//@start
    proof { lemma_split_nonempty(sb(value), 0x2F); lemma_strs(); }
//@loopstart 0
    proof { lemma_strs(); }
//@loop 0
    invariant
        levels_of($out0@) + strs($it0.rem()) =~= address_levels(sb(value)),
    ensures levels_of($out0@) =~= address_levels(sb(value)),
    decreases $it0.rem().len(),
//@end
pub open spec fn address_levels(f: Seq<u8>) -> Path { (address(f)->0).0 }

// ================= collecting subscribers =================
//@predty : &(u128, Sender<ClientEvent>, QosLevel)
//@fn topic_heir::add_subscriber (subscribers, leaf)
    ensures merged(old(subscribers)@, final(subscribers)@, ISet::empty().insert(*leaf)),
//@finish
    proof {
        reveal(merged);
        let a = old(subscribers)@;
        let v = subscribers@;
        let hit = ISet::<SubscriptionLeaf>::empty().insert(*leaf);
        assert(hit.contains(*leaf));
        if v.len() > a.len() { assert(v[v.len() - 1].0 == leaf.identifier); } else {
            assert(exists|j: int| 0 <= j < a.len() && (#[trigger] a[j]).0 == leaf.identifier);
            let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).0 == leaf.identifier;
            assert(v[j].0 == a[j].0);
        }
        assert(exists|j: int| 0 <= j < v.len() && (#[trigger] v[j]).0 == leaf.identifier && v[j].2 as u8 >= leaf.qos as u8);
        assert forall|j: int| 0 <= j < v.len() implies #[trigger] qos_from(a, v, j, hit) by {}
        assert forall|j: int| 0 <= j < v.len() implies #[trigger] bridge_from(a, v, j, hit) by {}
    }
//@end
//@fn topic_heir::SubHier::get (levels, subscribers, share)
    ensures merged(old(subscribers)@, final(subscribers)@, hits(*self, levels_of(levels@), ob(*share))),
    decreases levels@.len(),
//@start
    broadcast use group_merge;
    let ghost sh = ob(*share);
    let ghost lv = levels_of(levels@);
    let ghost subs0 = subscribers@;
    proof { lemma_merge_none(subs0); lemma_levels(); lemma_seen_all(*self, lv, sh); }
//@loop 0
    invariant
        merged(subs0, subscribers@, ISet::empty().union(seen(here(*self, sh), $it0.rem()))), suffix(here(*self, sh), $it0.rem()),
    ensures merged(subs0, subscribers@, ISet::empty().union(here(*self, sh).to_iset())),
    decreases $it0.rem().len(),
//@loopstart 0
    broadcast use group_merge;
    proof { lemma_seen(ISet::empty(), here(*self, sh), $it0.rem()); }
//@loop 1
    invariant
        merged(subs0, subscribers@, ISet::empty().union(seen(here(*self, sh), $it1.rem()))), suffix(here(*self, sh), $it1.rem()),
    ensures merged(subs0, subscribers@, ISet::empty().union(here(*self, sh).to_iset())),
    decreases $it1.rem().len(),
//@loopstart 1
    broadcast use group_merge;
    proof { lemma_seen(ISet::empty(), here(*self, sh), $it1.rem()); }
//@loop 2
    invariant
        merged(subs0, subscribers@, mine(*self, lv, sh).union(seen(here(self.children@[HASH()], sh), $it2.rem()))), suffix(here(self.children@[HASH()], sh), $it2.rem()),
    ensures merged(subs0, subscribers@, mine(*self, lv, sh).union(here(self.children@[HASH()], sh).to_iset())),
    decreases $it2.rem().len(),
//@loopstart 2
    broadcast use group_merge;
    proof { lemma_seen(mine(*self, lv, sh), here(self.children@[HASH()], sh), $it2.rem()); }
//@loop 3
    invariant
        merged(subs0, subscribers@, mine(*self, lv, sh).union(seen(here(self.children@[HASH()], sh), $it3.rem()))), suffix(here(self.children@[HASH()], sh), $it3.rem()),
    ensures merged(subs0, subscribers@, mine(*self, lv, sh).union(here(self.children@[HASH()], sh).to_iset())),
    decreases $it3.rem().len(),
//@loopstart 3
    broadcast use group_merge;
    proof { lemma_seen(mine(*self, lv, sh), here(self.children@[HASH()], sh), $it3.rem()); }
//@end
proof fn lemma_levels()
    ensures
        forall|t: Seq<String>| #![trigger levels_of(t)] levels_of(t).len() == t.len() && levels_of(t.sk(1)) == levels_of(t).sk(1) || t.len() == 0,
        forall|t: Seq<String>| #![trigger levels_of(t)] t.len() == 0 ==> levels_of(t).len() == 0,
        forall|t: Seq<String>, i: int| #![trigger levels_of(t)[i]] 0 <= i < t.len() ==> levels_of(t)[i] == sb(t[i]),
{
    assert forall|t: Seq<String>| #![trigger levels_of(t)] levels_of(t).len() == t.len() && levels_of(t.sk(1)) == levels_of(t).sk(1) || t.len() == 0 by {
        if t.len() > 0 { assert(levels_of(t.sk(1)) =~= levels_of(t).sk(1)); } }
}
proof fn lemma_seen_all(h: SubHier, lv: Path, sh: Option<Seq<u8>>)
    ensures
        seen(here(h, sh), here(h, sh)) == ISet::<SubscriptionLeaf>::empty(), suffix(here(h, sh), here(h, sh)),
        ({ let l = here(h.children@[HASH()], sh); seen(l, l) == ISet::<SubscriptionLeaf>::empty() && suffix(l, l) }),
        Seq::<SubscriptionLeaf>::empty().to_iset() == ISet::<SubscriptionLeaf>::empty(),
{
    lemma_seen(ISet::empty(), here(h, sh), here(h, sh));
    let l = here(h.children@[HASH()], sh);
    lemma_seen(ISet::empty(), l, l);
    assert(Seq::<SubscriptionLeaf>::empty().to_iset() =~= ISet::<SubscriptionLeaf>::empty());
}

// ================= the table: insert and delete =================
#[verifier::opaque]
pub open spec fn hier_ins(o: SubHier, n: SubHier, lv: Path, share: Option<Seq<u8>>, x: SubscriptionLeaf) -> bool {
    forall|p: Path, s: Option<Seq<u8>>| if p == lv && s == share { ins_post(at(o, p, s), #[trigger] at(n, p, s), x) } else { at(n, p, s) == at(o, p, s) }
}
#[verifier::opaque]
pub open spec fn hier_del(o: SubHier, n: SubHier, lv: Path, share: Option<Seq<u8>>, id: u128) -> bool {
    forall|p: Path, s: Option<Seq<u8>>| if p == lv && s == share { del_post(at(o, p, s), #[trigger] at(n, p, s), id) } else { at(n, p, s) == at(o, p, s) }
}
pub open spec fn hier_empty(h: SubHier) -> bool { h.children@ =~= Map::<Seq<u8>, SubHier>::empty() && h.shared@ =~= Map::<Seq<u8>, Vec<SubscriptionLeaf>>::empty() && h.subs@.len() == 0 }
proof fn lemma_path(p: Path, q: Path)
    requires p.len() > 0, q.len() > 0, p[0] == q[0], p.sk(1) == q.sk(1),
    ensures p == q,
{
    assert(p.sk(1).len() == p.len() - 1);
    assert(q.sk(1).len() == q.len() - 1);
    assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by { if i > 0 { assert(p.sk(1)[i - 1] == q.sk(1)[i - 1]); } }
    assert(p =~= q);
}
/// well-formedness is local
pub open spec fn wf_local(h: SubHier) -> bool {
    uniq(h.subs@) && (forall|g: Seq<u8>| h.shared@.dom().contains(g) ==> uniq((#[trigger] h.shared@[g])@)) && (forall|k: Seq<u8>| h.children@.dom().contains(k) ==> wf(#[trigger] h.children@[k]))
}
proof fn lemma_wf()
    ensures forall|h: SubHier| #[trigger] wf(h) <==> wf_local(h),
{
    assert forall|h: SubHier| #[trigger] wf(h) <==> wf_local(h) by {
        if wf(h) {
            assert(at(h, Seq::empty(), None) == h.subs@);
            assert forall|g: Seq<u8>| h.shared@.dom().contains(g) implies uniq((#[trigger] h.shared@[g])@) by { assert(at(h, Seq::empty(), Some(g)) == h.shared@[g]@); }
            assert forall|k: Seq<u8>| h.children@.dom().contains(k) implies wf(#[trigger] h.children@[k]) by {
                assert forall|p: Path, s: Option<Seq<u8>>| uniq(#[trigger] at(h.children@[k], p, s)) by {
                    let q = seq![k] + p;
                    assert(q.sk(1) =~= p);
                    assert(at(h, q, s) == at(h.children@[k], p, s));
                }
            }
        }
        if wf_local(h) {
            assert forall|p: Path, s: Option<Seq<u8>>| uniq(#[trigger] at(h, p, s)) by {
                if p.len() > 0 && h.children@.dom().contains(p[0]) { assert(wf(h.children@[p[0]])); assert(at(h, p, s) == at(h.children@[p[0]], p.sk(1), s)); }
            }
        }
    }
}
/// the child that an operation on the path lv goes to: the one there is, or one that holds nothing
pub open spec fn child_before(c: SubHier, o: SubHier, k: Seq<u8>) -> bool {
    if o.children@.dom().contains(k) { c == o.children@[k] } else { forall|p: Path, s: Option<Seq<u8>>| (#[trigger] at(c, p, s)).len() == 0 }
}
pub open spec fn other_children(o: SubHier, n: SubHier, k: Seq<u8>) -> bool {
    forall|j: Seq<u8>| j != k ==> (#[trigger] n.children@.dom().contains(j) <==> o.children@.dom().contains(j)) && n.children@[j] == o.children@[j]
}
pub open spec fn same_lists(o: SubHier, n: SubHier) -> bool { o.subs@ == n.subs@ && o.shared@ == n.shared@ }
pub open spec fn child_ins(o: SubHier, n: SubHier, lv: Path, share: Option<Seq<u8>>, x: SubscriptionLeaf) -> bool {
    same_lists(o, n) && other_children(o, n, lv[0]) && n.children@.dom().contains(lv[0])
    && exists|c: SubHier| child_before(c, o, lv[0]) && #[trigger] hier_ins(c, n.children@[lv[0]], lv.sk(1), share, x)
}
proof fn lemma_child_ins(o: SubHier, n: SubHier, lv: Path, share: Option<Seq<u8>>, x: SubscriptionLeaf)
    requires lv.len() > 0, child_ins(o, n, lv, share, x),
    ensures hier_ins(o, n, lv, share, x),
{
    reveal(hier_ins);
    let c = choose|c: SubHier| child_before(c, o, lv[0]) && #[trigger] hier_ins(c, n.children@[lv[0]], lv.sk(1), share, x);
    assert forall|p: Path, s: Option<Seq<u8>>| if p == lv && s == share { ins_post(at(o, p, s), #[trigger] at(n, p, s), x) } else { at(n, p, s) == at(o, p, s) } by {
        if p.len() > 0 && p[0] == lv[0] {
            if p.sk(1) == lv.sk(1) { lemma_path(p, lv); }
            let nc = n.children@[lv[0]];
            assert(at(n, p, s) == at(nc, p.sk(1), s));
            assert(at(c, p.sk(1), s) == at(o, p, s)) by { if !o.children@.dom().contains(p[0]) { assert(at(c, p.sk(1), s) =~= at(o, p, s)); } }
        }
    }
}
pub open spec fn list_ins(o: SubHier, n: SubHier, share: Option<Seq<u8>>, x: SubscriptionLeaf) -> bool {
    o.children@ == n.children@ && ins_post(here(o, share), here(n, share), x) && forall|s: Option<Seq<u8>>| s != share ==> #[trigger] here(n, s) == here(o, s)
}
proof fn lemma_list_ins(o: SubHier, n: SubHier, lv: Path, share: Option<Seq<u8>>, x: SubscriptionLeaf)
    requires lv.len() == 0, list_ins(o, n, share, x),
    ensures hier_ins(o, n, lv, share, x),
{
    reveal(hier_ins);
    assert forall|p: Path, s: Option<Seq<u8>>| if p == lv && s == share { ins_post(at(o, p, s), #[trigger] at(n, p, s), x) } else { at(n, p, s) == at(o, p, s) } by {
        if p.len() == 0 { assert(p =~= lv); assert(at(n, p, s) == here(n, s)); }
        else if p == lv { assert(false); }
    }
}
proof fn lemma_ins_wf(o: SubHier, n: SubHier, lv: Path, share: Option<Seq<u8>>, x: SubscriptionLeaf)
    requires wf(o), hier_ins(o, n, lv, share, x),
    ensures wf(n),
{
    reveal(hier_ins);
    assert forall|p: Path, s: Option<Seq<u8>>| uniq(#[trigger] at(n, p, s)) by { assert(uniq(at(o, p, s))); }
}
/// removing the entry of one subscriber from a list, and adding one
proof fn lemma_lists()
    ensures
        forall|o: Seq<SubscriptionLeaf>, x: SubscriptionLeaf| #![trigger o.push(x)] uniq(o) && (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).identifier != x.identifier) ==> ins_post(o, o.push(x), x),
        forall|o: Seq<SubscriptionLeaf>, k: int, x: SubscriptionLeaf| #![trigger o.remove(k).push(x)] uniq(o) && 0 <= k < o.len() && o[k].identifier == x.identifier ==> ins_post(o, o.remove(k).push(x), x),
        forall|o: Seq<SubscriptionLeaf>, k: int| #![trigger o.remove(k)] uniq(o) && 0 <= k < o.len() ==> del_post(o, o.remove(k), o[k].identifier),
{
    assert forall|o: Seq<SubscriptionLeaf>, k: int| #![trigger o.remove(k)] uniq(o) && 0 <= k < o.len() implies del_post(o, o.remove(k), o[k].identifier) by {
        let n = o.remove(k);
        assert forall|l: SubscriptionLeaf| #[trigger] n.contains(l) <==> (o.contains(l) && l.identifier != o[k].identifier) by {
            if n.contains(l) { let i = choose|i: int| 0 <= i < n.len() && n[i] == l; if i < k { assert(o[i] == l); } else { assert(o[i + 1] == l); } }
            if o.contains(l) && l.identifier != o[k].identifier { let i = choose|i: int| 0 <= i < o.len() && o[i] == l; if i < k { assert(n[i] == l); } else { assert(n[i - 1] == l); } }
        }
    }
    assert forall|o: Seq<SubscriptionLeaf>, x: SubscriptionLeaf| #![trigger o.push(x)] uniq(o) && (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).identifier != x.identifier) implies ins_post(o, o.push(x), x) by {
        let n = o.push(x);
        assert forall|l: SubscriptionLeaf| #[trigger] n.contains(l) <==> (l == x || (o.contains(l) && l.identifier != x.identifier)) by {
            assert(n[o.len() as int] == x);
            if o.contains(l) { let i = choose|i: int| 0 <= i < o.len() && o[i] == l; assert(n[i] == l); }
        }
    }
    assert forall|o: Seq<SubscriptionLeaf>, k: int, x: SubscriptionLeaf| #![trigger o.remove(k).push(x)] uniq(o) && 0 <= k < o.len() && o[k].identifier == x.identifier implies ins_post(o, o.remove(k).push(x), x) by {
        let m = o.remove(k);
        assert(del_post(o, m, x.identifier));
        let n = m.push(x);
        assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).identifier != x.identifier by { assert(m.contains(m[i])); }
        assert forall|l: SubscriptionLeaf| #[trigger] n.contains(l) <==> (l == x || (o.contains(l) && l.identifier != x.identifier)) by {
            assert(n[m.len() as int] == x);
            if m.contains(l) { let i = choose|i: int| 0 <= i < m.len() && m[i] == l; assert(n[i] == l); }
        }
    }
}
//@predty : &SubscriptionLeaf
//@fn topic_heir::SubHier::insert (iter, sub, share)
    requires wf(*old(self)),
    ensures hier_ins(*old(self), *final(self), levels_of(iter.rem()), ob(share), sub), wf(*final(self)),
    decreases iter.rem().len(),
//@start
    let ghost o = *self;
    let ghost lv = levels_of(iter.rem());
    let ghost sh = ob(share);
    let ghost x = sub;
    proof { lemma_levels(); lemma_wf(); lemma_lists(); }
//@finish
    proof {
        if lv.len() > 0 { let nc = self.children@[lv[0]]; assert(exists|c: SubHier| child_before(c, o, lv[0]) && #[trigger] hier_ins(c, nc, lv.sk(1), sh, x)); lemma_child_ins(o, *self, lv, sh, x); } else { lemma_list_ins(o, *self, lv, sh, x); }
        lemma_ins_wf(o, *self, lv, sh, x);
    }
//@end
pub open spec fn void(h: SubHier) -> bool { forall|p: Path, s: Option<Seq<u8>>| (#[trigger] at(h, p, s)).len() == 0 }
pub open spec fn child_after(o: SubHier, n: SubHier, k: Seq<u8>, c: SubHier) -> bool { if n.children@.dom().contains(k) { n.children@[k] == c } else { void(c) } }
pub open spec fn child_del(o: SubHier, n: SubHier, lv: Path, share: Option<Seq<u8>>, id: u128) -> bool {
    same_lists(o, n) && other_children(o, n, lv[0])
    && if o.children@.dom().contains(lv[0]) {
        exists|c: SubHier| #[trigger] hier_del(o.children@[lv[0]], c, lv.sk(1), share, id) && child_after(o, n, lv[0], c)
    } else { !n.children@.dom().contains(lv[0]) }
}
proof fn lemma_child_del(o: SubHier, n: SubHier, lv: Path, share: Option<Seq<u8>>, id: u128)
    requires wf(o), lv.len() > 0, child_del(o, n, lv, share, id),
    ensures hier_del(o, n, lv, share, id),
{
    reveal(hier_del);
    assert forall|p: Path, s: Option<Seq<u8>>| if p == lv && s == share { del_post(at(o, p, s), #[trigger] at(n, p, s), id) } else { at(n, p, s) == at(o, p, s) } by {
        if p.len() > 0 && p[0] == lv[0] {
            if p.sk(1) == lv.sk(1) { lemma_path(p, lv); }
            if o.children@.dom().contains(lv[0]) {
                let c = choose|c: SubHier| #[trigger] hier_del(o.children@[lv[0]], c, lv.sk(1), share, id) && child_after(o, n, lv[0], c);
                assert(at(o, p, s) == at(o.children@[lv[0]], p.sk(1), s));
                if n.children@.dom().contains(lv[0]) { assert(at(n, p, s) == at(c, p.sk(1), s)); }
                else { assert(at(c, p.sk(1), s).len() == 0); assert(at(n, p, s) =~= at(c, p.sk(1), s)); }
            }
        }
    }
}
pub open spec fn list_del(o: SubHier, n: SubHier, share: Option<Seq<u8>>, id: u128) -> bool {
    o.children@ == n.children@ && del_post(here(o, share), here(n, share), id) && forall|s: Option<Seq<u8>>| s != share ==> #[trigger] here(n, s) == here(o, s)
}
proof fn lemma_list_del(o: SubHier, n: SubHier, lv: Path, share: Option<Seq<u8>>, id: u128)
    requires lv.len() == 0, list_del(o, n, share, id),
    ensures hier_del(o, n, lv, share, id),
{
    reveal(hier_del);
    assert forall|p: Path, s: Option<Seq<u8>>| if p == lv && s == share { del_post(at(o, p, s), #[trigger] at(n, p, s), id) } else { at(n, p, s) == at(o, p, s) } by {
        if p.len() == 0 { assert(p =~= lv); assert(at(n, p, s) == here(n, s)); }
        else if p == lv { assert(false); }
    }
}
proof fn lemma_del_wf(o: SubHier, n: SubHier, lv: Path, share: Option<Seq<u8>>, id: u128)
    requires wf(o), hier_del(o, n, lv, share, id),
    ensures wf(n),
{
    reveal(hier_del);
    assert forall|p: Path, s: Option<Seq<u8>>| uniq(#[trigger] at(n, p, s)) by { assert(uniq(at(o, p, s))); }
}
proof fn lemma_not_there(o: Seq<SubscriptionLeaf>, id: u128)
    requires uniq(o),
    ensures (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).identifier != id) ==> del_post(o, o, id),
{}
//@fn topic_heir::SubHier::delete (iter, identifer, share) -> r
    requires wf(*old(self)),
    ensures hier_del(*old(self), *final(self), levels_of(iter.rem()), ob(share), identifer), wf(*final(self)), r ==> void(*final(self)),
    decreases iter.rem().len(),
//@start
    let ghost o = *self;
    let ghost lv = levels_of(iter.rem());
    let ghost sh = ob(share);
    proof { lemma_levels(); lemma_wf(); lemma_lists(); lemma_not_there(here(o, sh), identifer); }
//@finish
    proof {
        if lv.len() > 0 {
            if o.children@.dom().contains(lv[0]) {
                let oc = o.children@[lv[0]];
                assert(exists|c: SubHier| #[trigger] hier_del(oc, c, lv.sk(1), sh, identifer) && child_after(o, *self, lv[0], c));
            }
            lemma_child_del(o, *self, lv, sh, identifer);
        } else { lemma_list_del(o, *self, lv, sh, identifer); }
        lemma_del_wf(o, *self, lv, sh, identifer);
    }
//@end

// ================= the whole table =================
proof fn lemma_twf()
    ensures forall|t: SubscriptionTree| #[trigger] twf(t) <==> (forall|k: Seq<u8>| t.0@.dom().contains(k) ==> wf(#[trigger] t.0@[k])),
{
    assert forall|t: SubscriptionTree| #[trigger] twf(t) <==> (forall|k: Seq<u8>| t.0@.dom().contains(k) ==> wf(#[trigger] t.0@[k])) by {
        if twf(t) {
            assert forall|k: Seq<u8>| t.0@.dom().contains(k) implies wf(#[trigger] t.0@[k]) by {
                assert forall|p: Path, s: Option<Seq<u8>>| uniq(#[trigger] at(t.0@[k], p, s)) by {
                    let q = seq![k] + p;
                    assert(q.sk(1) =~= p);
                    assert(tat(t, q, s) == at(t.0@[k], p, s));
                }
            }
        }
        if forall|k: Seq<u8>| t.0@.dom().contains(k) ==> wf(#[trigger] t.0@[k]) {
            assert forall|p: Path, s: Option<Seq<u8>>| uniq(#[trigger] tat(t, p, s)) by { if p.len() > 0 && t.0@.dom().contains(p[0]) { assert(wf(t.0@[p[0]])); } }
        }
    }
}
pub open spec fn other_roots(o: SubscriptionTree, n: SubscriptionTree, k: Seq<u8>) -> bool {
    forall|j: Seq<u8>| j != k ==> (#[trigger] n.0@.dom().contains(j) <==> o.0@.dom().contains(j)) && n.0@[j] == o.0@[j]
}
pub open spec fn root_before(c: SubHier, o: SubscriptionTree, k: Seq<u8>) -> bool { if o.0@.dom().contains(k) { c == o.0@[k] } else { void(c) } }
pub open spec fn root_after(n: SubscriptionTree, k: Seq<u8>, c: SubHier) -> bool { if n.0@.dom().contains(k) { n.0@[k] == c } else { void(c) } }
proof fn lemma_root_ins(o: SubscriptionTree, n: SubscriptionTree, lv: Path, share: Option<Seq<u8>>, x: SubscriptionLeaf)
    requires twf(o), lv.len() > 0, other_roots(o, n, lv[0]), n.0@.dom().contains(lv[0]),
        exists|c: SubHier| root_before(c, o, lv[0]) && #[trigger] hier_ins(c, n.0@[lv[0]], lv.sk(1), share, x),
    ensures tree_ins(o, n, lv, share, x), twf(n),
{
    reveal(hier_ins);
    let c = choose|c: SubHier| root_before(c, o, lv[0]) && #[trigger] hier_ins(c, n.0@[lv[0]], lv.sk(1), share, x);
    assert forall|p: Path, s: Option<Seq<u8>>| if p == lv && s == share { ins_post(tat(o, p, s), #[trigger] tat(n, p, s), x) } else { tat(n, p, s) == tat(o, p, s) } by {
        if p.len() > 0 && p[0] == lv[0] {
            if p.sk(1) == lv.sk(1) { lemma_path(p, lv); }
            assert(tat(n, p, s) == at(n.0@[lv[0]], p.sk(1), s));
            assert(at(c, p.sk(1), s) == tat(o, p, s)) by { if !o.0@.dom().contains(p[0]) { assert(at(c, p.sk(1), s) =~= tat(o, p, s)); } }
        }
    }
    assert forall|p: Path, s: Option<Seq<u8>>| uniq(#[trigger] tat(n, p, s)) by { assert(uniq(tat(o, p, s))); }
}
proof fn lemma_root_del(o: SubscriptionTree, n: SubscriptionTree, lv: Path, share: Option<Seq<u8>>, id: u128)
    requires twf(o), lv.len() > 0, other_roots(o, n, lv[0]),
        if o.0@.dom().contains(lv[0]) { exists|c: SubHier| #[trigger] hier_del(o.0@[lv[0]], c, lv.sk(1), share, id) && root_after(n, lv[0], c) } else { !n.0@.dom().contains(lv[0]) },
    ensures tree_del(o, n, lv, share, id), twf(n),
{
    reveal(hier_del);
    assert forall|p: Path, s: Option<Seq<u8>>| if p == lv && s == share { del_post(tat(o, p, s), #[trigger] tat(n, p, s), id) } else { tat(n, p, s) == tat(o, p, s) } by {
        assert(uniq(tat(o, p, s)));
        if p.len() > 0 && p[0] == lv[0] {
            if p.sk(1) == lv.sk(1) { lemma_path(p, lv); }
            if o.0@.dom().contains(lv[0]) {
                let c = choose|c: SubHier| #[trigger] hier_del(o.0@[lv[0]], c, lv.sk(1), share, id) && root_after(n, lv[0], c);
                assert(tat(o, p, s) == at(o.0@[lv[0]], p.sk(1), s));
                if n.0@.dom().contains(lv[0]) { assert(tat(n, p, s) == at(c, p.sk(1), s)); }
                else { assert(at(c, p.sk(1), s).len() == 0); assert(tat(n, p, s) =~= at(c, p.sk(1), s)); }
            }
        }
    }
    assert forall|p: Path, s: Option<Seq<u8>>| uniq(#[trigger] tat(n, p, s)) by { assert(uniq(tat(o, p, s))); }
}
proof fn lemma_address(f: Seq<u8>)
    ensures address(f) is Some ==> (address(f)->0).0.len() > 0,
{ lemma_split_nonempty(f, 0x2F); }
//@fn topic_heir::SubscriptionTree::insert (filter, sub) -> r
    requires twf(*old(self)),
    ensures twf(*final(self)),
        match address(sb(filter)) {
            Some((lv, g)) if ok_filter(lv) => r is Ok && tree_ins(*old(self), *final(self), lv, g, sub),
            _ => r is Err && *final(self) == *old(self) },
//@start
    let ghost o = *self;
    let ghost ad = address(sb(filter));
    proof { lemma_levels(); lemma_twf(); lemma_address(sb(filter)); }
//@finish
    proof {
        if ad is Some && ok_filter((ad->0).0) {
            let lv = (ad->0).0;
            let sh = (ad->0).1;
            let nc = self.0@[lv[0]];
            assert(exists|c: SubHier| root_before(c, o, lv[0]) && #[trigger] hier_ins(c, nc, lv.sk(1), sh, sub));
            lemma_root_ins(o, *self, lv, sh, sub);
        }
    }
//@end
//@fn topic_heir::SubscriptionTree::delete (filter, sub) -> r
    requires twf(*old(self)),
    ensures twf(*final(self)),
        match address(sb(filter)) {
            Some((lv, g)) => r is Ok && tree_del(*old(self), *final(self), lv, g, sub),
            None => r is Err && *final(self) == *old(self) },
//@start
    let ghost o = *self;
    let ghost ad = address(sb(filter));
    proof { lemma_levels(); lemma_twf(); lemma_address(sb(filter)); }
//@finish
    proof {
        if ad is Some {
            let lv = (ad->0).0;
            let sh = (ad->0).1;
            if o.0@.dom().contains(lv[0]) {
                let oc = o.0@[lv[0]];
                assert(exists|c: SubHier| #[trigger] hier_del(oc, c, lv.sk(1), sh, sub) && root_after(*self, lv[0], c));
            }
            lemma_root_del(o, *self, lv, sh, sub);
        }
    }
//@end
//@fn topic_heir::SubscriptionTree::get (filter) -> r
    ensures match address(sb(filter)) {
            Some((lv, g)) => r is Ok && merged(Seq::empty(), (r->Ok_0)@, thits(*self, lv, g)),
            None => r is Err },
//@start
    broadcast use group_merge;
    let ghost ad = address(sb(filter));
    let ghost lv = (ad->0).0;
    let ghost sh = (ad->0).1;
    let ghost hl = here(self.0@[HASH()], sh);
    let ghost above = if lv.len() == 0 { ISet::<SubscriptionLeaf>::empty() } else { below(self.0@, lv[0], lv, sh).union(below(self.0@, PLUS(), lv, sh)) };
    proof {
        lemma_levels(); lemma_address(sb(filter)); lemma_merge_none(Seq::<Sub>::empty());
        lemma_seen(ISet::empty(), hl, hl);
        assert(Seq::<SubscriptionLeaf>::empty().to_iset() =~= ISet::<SubscriptionLeaf>::empty());
    }
//@loop 0
    invariant
        merged(Seq::empty(), subscribers@, above.union(seen(hl, $it0.rem()))), suffix(hl, $it0.rem()),
    ensures merged(Seq::empty(), subscribers@, above.union(hl.to_iset())),
    decreases $it0.rem().len(),
//@loopstart 0
    broadcast use group_merge;
    proof { lemma_seen(above, hl, $it0.rem()); }
//@loop 1
    invariant
        merged(Seq::empty(), subscribers@, above.union(seen(hl, $it1.rem()))), suffix(hl, $it1.rem()),
    ensures merged(Seq::empty(), subscribers@, above.union(hl.to_iset())),
    decreases $it1.rem().len(),
//@loopstart 1
    broadcast use group_merge;
    proof { lemma_seen(above, hl, $it1.rem()); }
//@end

// ================= theorem: what a publication collects is what the standard says matches =================
proof fn theorem_hits(h: SubHier, t: Path, s: Option<Seq<u8>>, l: SubscriptionLeaf)
    ensures hits(h, t, s).contains(l) <==> exists|pat: Path| #[trigger] fmatch(pat, t) && at(h, pat, s).contains(l),
    decreases t.len(),
{
    reveal_with_fuel(at, 3);
    if hits(h, t, s).contains(l) {
        if hashed(h.children@, s).contains(l) {
            let pat: Path = seq![HASH()];
            assert(pat.sk(1) =~= Seq::<Seq<u8>>::empty());
            assert(is1(pat[0], 0x23));
            assert(fmatch(pat, t));
            assert(at(h, pat, s) == here(h.children@[HASH()], s));
        } else if t.len() == 0 {
            let pat: Path = Seq::empty();
            assert(fmatch(pat, t) && at(h, pat, s).contains(l));
        } else {
            let k = if below(h.children@, t[0], t, s).contains(l) { t[0] } else { PLUS() };
            theorem_hits(h.children@[k], t.sk(1), s, l);
            let q = choose|q: Path| #[trigger] fmatch(q, t.sk(1)) && at(h.children@[k], q, s).contains(l);
            let pat = seq![k] + q;
            assert(pat.sk(1) =~= q);
            assert(fmatch(pat, t));
            assert(at(h, pat, s) == at(h.children@[k], q, s));
        }
    }
    if exists|pat: Path| #[trigger] fmatch(pat, t) && at(h, pat, s).contains(l) {
        let pat = choose|pat: Path| #[trigger] fmatch(pat, t) && at(h, pat, s).contains(l);
        if pat.len() == 0 {}
        else if pat.len() == 1 && is1(pat[0], 0x23) {
            assert(pat[0] =~= HASH());
            assert(pat.sk(1).len() == 0);
            assert(at(h, pat, s) == here(h.children@[HASH()], s));
            assert(hashed(h.children@, s).contains(l));
        } else {
            let k = pat[0];
            assert(is1(k, 0x2B) ==> k =~= PLUS());
            theorem_hits(h.children@[k], t.sk(1), s, l);
            assert(fmatch(pat.sk(1), t.sk(1)) && at(h.children@[k], pat.sk(1), s).contains(l));
        }
    }
}
proof fn theorem_matching(tr: SubscriptionTree, t: Path, s: Option<Seq<u8>>, l: SubscriptionLeaf)
    requires t.len() > 0,
    ensures thits(tr, t, s).contains(l) <==> exists|pat: Path| #[trigger] tmatch(pat, t) && tat(tr, pat, s).contains(l),
{
    reveal_with_fuel(at, 3);
    if thits(tr, t, s).contains(l) {
        if !dollar(t) && hashed(tr.0@, s).contains(l) {
            let pat: Path = seq![HASH()];
            assert(pat.sk(1) =~= Seq::<Seq<u8>>::empty());
            assert(fmatch(pat, t));
            assert(tat(tr, pat, s) == here(tr.0@[HASH()], s));
            assert(tmatch(pat, t));
        } else {
            let k = if below(tr.0@, t[0], t, s).contains(l) { t[0] } else { PLUS() };
            theorem_hits(tr.0@[k], t.sk(1), s, l);
            let q = choose|q: Path| #[trigger] fmatch(q, t.sk(1)) && at(tr.0@[k], q, s).contains(l);
            let pat = seq![k] + q;
            assert(pat.sk(1) =~= q);
            assert(fmatch(pat, t));
            assert(tat(tr, pat, s) == at(tr.0@[k], q, s));
            assert(tmatch(pat, t));
        }
    }
    if exists|pat: Path| #[trigger] tmatch(pat, t) && tat(tr, pat, s).contains(l) {
        let pat = choose|pat: Path| #[trigger] tmatch(pat, t) && tat(tr, pat, s).contains(l);
        if pat.len() == 1 && is1(pat[0], 0x23) {
            assert(pat[0] =~= HASH());
            assert(pat.sk(1).len() == 0);
            assert(tat(tr, pat, s) == here(tr.0@[HASH()], s));
            assert(hashed(tr.0@, s).contains(l));
        } else {
            let k = pat[0];
            assert(is1(k, 0x2B) ==> k =~= PLUS());
            theorem_hits(tr.0@[k], t.sk(1), s, l);
            assert(fmatch(pat.sk(1), t.sk(1)) && at(tr.0@[k], pat.sk(1), s).contains(l));
        }
    }
}
