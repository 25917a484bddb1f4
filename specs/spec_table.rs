// What subscribing and unsubscribing do to the table.
pub open spec fn ins_post(o: Seq<SubscriptionLeaf>, n: Seq<SubscriptionLeaf>, x: SubscriptionLeaf) -> bool { added(o, n, x) && uniq(n) }
pub open spec fn del_post(o: Seq<SubscriptionLeaf>, n: Seq<SubscriptionLeaf>, id: u128) -> bool { dropped(o, n, id) && uniq(n) }
pub open spec fn tree_ins(o: SubscriptionTree, n: SubscriptionTree, lv: Path, share: Option<Seq<u8>>, x: SubscriptionLeaf) -> bool {
    forall|p: Path, s: Option<Seq<u8>>| if p == lv && s == share { ins_post(tat(o, p, s), #[trigger] tat(n, p, s), x) } else { tat(n, p, s) == tat(o, p, s) }
}
pub open spec fn tree_del(o: SubscriptionTree, n: SubscriptionTree, lv: Path, share: Option<Seq<u8>>, id: u128) -> bool {
    forall|p: Path, s: Option<Seq<u8>>| if p == lv && s == share { del_post(tat(o, p, s), #[trigger] tat(n, p, s), id) } else { tat(n, p, s) == tat(o, p, s) }
}
