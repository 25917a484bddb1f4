//@unit broker
//@include shim_base.rs
//@include spec_mqtt.rs
//@type core::enums::Responder
//@type core::enums::Receiver
//@type core::enums::Command
//@type core::enums::ClientEvent
//@include types_codec.rs
//@include shim_coll.rs
//@type topic_heir::SubscriptionLeaf
//@type topic_heir::SubHier
//@type topic_heir::SubscriptionTree
//@include spec_topic.rs
//@include spec_table.rs
//@include shim_core.rs
//@include spec_cmd.rs
//@include shim_world.rs
//@type core::session::Session
//@type core::App

//@use u1.rs packets::Packet::make_publish
//@use u2.rs topic_heir::SubscriptionLeaf::new
//@use u2.rs topic_heir::SubscriptionTree::new
//@use u2.rs topic_heir::SubscriptionTree::insert
//@use u2.rs topic_heir::SubscriptionTree::delete
//@use u2.rs topic_heir::SubscriptionTree::get

// ================= sessions =================
pub type Sessions = Map<Seq<u8>, Session>;
pub open spec fn next_id(last: u16) -> u16 { if last == 65535 { 1 } else { (last + 1) as u16 } }
//@fn core::session::Session::new (bridge, clean) -> r
    ensures r.bridge == bridge, r.clean == clean, from_uuid(r.id), r.last_packet_id == 0,
//@end
//@fn core::session::Session::next_packet_id () -> r
    ensures r == next_id(old(self).last_packet_id), r != 0, *final(self) == (Session { last_packet_id: r, ..*old(self) }),
//@end
pub open spec fn ids_ok(m: Sessions) -> bool {
    forall|a: Seq<u8>, b: Seq<u8>| #![trigger m[a], m[b]] m.dom().contains(a) && m.dom().contains(b) && m[a].id == m[b].id ==> a == b
}
pub open spec fn empty_app(a: App) -> bool {
    a.sessions@ == Map::<Seq<u8>, Session>::empty() && forall|p: Path, s: Option<Seq<u8>>| (#[trigger] tat(a.subscriptions, p, s)).len() == 0
}
//@fn core::App::new () -> r
    ensures twf(r.subscriptions), empty_app(r),
//@end

// ================= publish =================
pub open spec fn lower(a: QosLevel, b: QosLevel) -> QosLevel { if a as u8 <= b as u8 { a } else { b } }
pub open spec fn holds_id(m: Sessions, k: Seq<u8>, id: u128) -> bool { m.dom().contains(k) && m[k].id == id }
pub open spec fn holder(m: Sessions, id: u128) -> Seq<u8> { choose|k: Seq<u8>| holds_id(m, k, id) }
/// the PUBLISH that a session gets [MQTT-3.3.1-3] [MQTT-3.8.4-6] [MQTT-2.3.1-1]
pub open spec fn forwarded(m: Msg, q: QosLevel, id: u16) -> Seq<u8> {
    encode(SPacket::Publish { flags: pub_flags(false, q, false), topic: m.topic, id: if q is AtMost { None } else { Some(id) }, payload: m.payload })
}
/// one subscriber's delivery: on the connection its session has now; nothing when the session is gone
pub open spec fn deliver(st: (Sessions, Seq<Ev>), e: Sub, msg: Msg) -> (Sessions, Seq<Ev>) {
    if exists|k: Seq<u8>| holds_id(st.0, k, e.0) {
        let k = holder(st.0, e.0);
        let s = st.0[k];
        let q = lower(e.2, msg.qos);
        let id = next_id(s.last_packet_id);
        (st.0.insert(k, if q is AtMost { s } else { Session { last_packet_id: id, ..s } }),
         st.1.push(Ev::ToClient { chan: s.bridge.chan(), what: Out::Msg(forwarded(msg, q, id)) }))
    } else { st }
}
pub open spec fn deliver_all(st: (Sessions, Seq<Ev>), v: Seq<Sub>, msg: Msg) -> (Sessions, Seq<Ev>)
    decreases v.len(),
{ if v.len() == 0 { st } else { deliver_all(deliver(st, v[0], msg), v.sk(1), msg) } }
/// this publication, in some packet
pub open spec fn made_of(e: Ev, m: Msg) -> bool {
    match e { Ev::ToClient { chan, what: Out::Msg(b) } => exists|p: SPacket| b == #[trigger] encode(p) && carries(p, m), _ => false }
}
pub open spec fn carries(p: SPacket, m: Msg) -> bool { match p { SPacket::Publish { topic, payload, .. } => topic == m.topic && payload == m.payload, _ => false } }
/// what was said is not taken back, and what is added is this publication
#[verifier::opaque]
pub open spec fn appended(l: Seq<Ev>, l2: Seq<Ev>, m: Msg) -> bool {
    l.len() <= l2.len() && l2.take(l.len() as int) =~= l && forall|i: int| l.len() <= i < l2.len() ==> made_of(#[trigger] l2[i], m)
}
proof fn lemma_appended(m: Msg)
    ensures
        forall|l: Seq<Ev>| #[trigger] appended(l, l, m),
        forall|l: Seq<Ev>, l2: Seq<Ev>, e: Ev| #![trigger appended(l, l2, m), l2.push(e)] appended(l, l2, m) && made_of(e, m) ==> appended(l, l2.push(e), m),
{
    reveal(appended);
    assert forall|l: Seq<Ev>, l2: Seq<Ev>, e: Ev| #![trigger appended(l, l2, m), l2.push(e)] appended(l, l2, m) && made_of(e, m) implies appended(l, l2.push(e), m) by {
        let n = l2.push(e);
        assert(n.take(l.len() as int) =~= l2.take(l.len() as int));
        assert forall|i: int| l.len() <= i < n.len() implies made_of(#[trigger] n[i], m) by { if i < l2.len() { assert(n[i] == l2[i]); } }
    }
}
/// what a publication does: every session with a matching subscription gets it once
pub open spec fn published(a: App, log: Seq<Ev>, m: Msg, b: App, log2: Seq<Ev>) -> bool {
    a.subscriptions == b.subscriptions
    && match address(m.topic) {
        None => a.sessions@ == b.sessions@ && log2 == log,
        Some((lv, g)) => exists|v: Seq<Sub>| #[trigger] merged(Seq::empty(), v, thits(a.subscriptions, lv, g)) && (b.sessions@, log2) == deliver_all((a.sessions@, log), v, m) }
}
proof fn lemma_holder(m: Sessions, id: u128)
    ensures ids_ok(m) ==> forall|k: Seq<u8>| #[trigger] m.dom().contains(k) ==> (m[k].id == id <==> holds_id(m, k, id)) && (m[k].id == id ==> holder(m, id) == k),
{
    if ids_ok(m) {
        assert forall|k: Seq<u8>| #[trigger] m.dom().contains(k) implies (m[k].id == id <==> holds_id(m, k, id)) && (m[k].id == id ==> holder(m, id) == k) by {
            if holds_id(m, k, id) { let h = holder(m, id); assert(holds_id(m, h, id)); assert(m[h].id == m[k].id); }
        }
    }
}
//@predty : &Session
//@fn core::App::publish (topic, publish_qos, payload)
    requires twf(old(self).subscriptions), msg_ok(Msg { topic: sb(topic), qos: publish_qos, payload: payload@ }),
    ensures twf(final(self).subscriptions), final(self).subscriptions == old(self).subscriptions,
        appended(old(__w).log(), final(__w).log(), Msg { topic: sb(topic), qos: publish_qos, payload: payload@ }),
        ids_ok(old(self).sessions@) ==> ids_ok(final(self).sessions@) && published(*old(self), old(__w).log(), Msg { topic: sb(topic), qos: publish_qos, payload: payload@ }, *final(self), final(__w).log()),
//@start
    let ghost a = *self;
    let ghost l0 = __w.log();
    let ghost m = Msg { topic: sb(topic), qos: publish_qos, payload: payload@ };
    let ghost lv = (address(m.topic)->0).0;
    let ghost g = (address(m.topic)->0).1;
    proof { lemma_appended(m); }
//@loop 0
    invariant
        appended(l0, __w.log(), m),
        address(m.topic) == Some((lv, g)), msg_ok(m), m == (Msg { topic: sb(topic), qos: publish_qos, payload: payload@ }),
        self.subscriptions == a.subscriptions, twf(self.subscriptions),
        ids_ok(a.sessions@) ==> ids_ok(self.sessions@),
        ids_ok(a.sessions@) ==> exists|v: Seq<Sub>| #[trigger] merged(Seq::empty(), v, thits(a.subscriptions, lv, g)) && deliver_all((self.sessions@, __w.log()), $it0.rem(), m) == deliver_all((a.sessions@, l0), v, m),
    ensures
        appended(l0, __w.log(), m),
        ids_ok(a.sessions@) ==> published(a, l0, m, *self, __w.log()),
        ids_ok(a.sessions@) ==> ids_ok(self.sessions@),
    decreases $it0.rem().len(),
//@loopstart 0
    proof {
        assert((address(m.topic)->0).0 == lv && (address(m.topic)->0).1 == g);
        lemma_appended(m);
        if $it0.rem().len() > 0 { lemma_holder(self.sessions@, $it0.rem()[0].0); }
    }
//@end

// ================= theorem: once per session, at the highest matching level of service =================
pub open spec fn highest(e: Sub, hits: ISet<SubscriptionLeaf>) -> bool {
    (exists|l: SubscriptionLeaf| #[trigger] hits.contains(l) && l.identifier == e.0 && l.qos == e.2)
    && forall|l: SubscriptionLeaf| #[trigger] hits.contains(l) && l.identifier == e.0 ==> l.qos as u8 <= e.2 as u8
}
proof fn theorem_once(v: Seq<Sub>, hits: ISet<SubscriptionLeaf>)
    requires merged(Seq::empty(), v, hits),
    ensures
        uniq_subs(v),
        forall|j: int| 0 <= j < v.len() ==> highest(#[trigger] v[j], hits),
        forall|l: SubscriptionLeaf| #[trigger] hits.contains(l) ==> covers(v, l),
{
    reveal(merged);
    assert forall|j: int| 0 <= j < v.len() implies highest(#[trigger] v[j], hits) by {
        assert(qos_from(Seq::empty(), v, j, hits));
        assert forall|l: SubscriptionLeaf| #[trigger] hits.contains(l) && l.identifier == v[j].0 implies l.qos as u8 <= v[j].2 as u8 by {
            assert(covers(v, l));
            let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == l.identifier && v[i].2 as u8 >= l.qos as u8;
            if i < j { assert(v[i].0 != v[j].0); } else if j < i { assert(v[j].0 != v[i].0); }
        }
    }
}
/// nothing that was logged is changed, and there is at most one new message per collected subscriber
proof fn theorem_deliver_all(st: (Sessions, Seq<Ev>), v: Seq<Sub>, msg: Msg)
    ensures ({ let r = deliver_all(st, v, msg); r.1.len() <= st.1.len() + v.len() && st.1.len() <= r.1.len() && r.1.take(st.1.len() as int) =~= st.1
        && r.0.dom() =~= st.0.dom() && forall|k: Seq<u8>| #[trigger] r.0.dom().contains(k) ==> r.0[k].id == st.0[k].id && r.0[k].bridge == st.0[k].bridge && r.0[k].clean == st.0[k].clean }),
    decreases v.len(),
{
    if v.len() > 0 {
        let d = deliver(st, v[0], msg);
        if exists|k: Seq<u8>| holds_id(st.0, k, v[0].0) { assert(holds_id(st.0, holder(st.0, v[0].0), v[0].0)); }
        theorem_deliver_all(d, v.sk(1), msg);
        let r = deliver_all(st, v, msg);
        assert(d.0.dom() =~= st.0.dom());
        assert(r.1.take(st.1.len() as int) =~= r.1.take(d.1.len() as int).take(st.1.len() as int));
    }
}

// ================= subscribe and unsubscribe =================
pub open spec fn subscribed1(o: SubscriptionTree, n: SubscriptionTree, f: (Seq<u8>, u8), id: u128, bridge: Sender<ClientEvent>) -> bool {
    match address(f.0) {
        Some((lv, g)) if ok_filter(lv) => exists|x: SubscriptionLeaf| #[trigger] tree_ins(o, n, lv, g, x) && x.identifier == id && x.qos as u8 == f.1 && x.bridge == bridge,
        _ => n == o }
}
/// the requested filters, one after the other
pub open spec fn subscribed(o: SubscriptionTree, n: SubscriptionTree, t: Seq<(Seq<u8>, u8)>, id: u128, bridge: Sender<ClientEvent>) -> bool
    decreases t.len(),
{ if t.len() == 0 { n == o } else { exists|m: SubscriptionTree| #[trigger] subscribed1(o, m, t[0], id, bridge) && subscribed(m, n, t.sk(1), id, bridge) } }
pub open spec fn unsubscribed1(o: SubscriptionTree, n: SubscriptionTree, f: Seq<u8>, id: u128) -> bool {
    match address(f) { Some((lv, g)) => tree_del(o, n, lv, g, id), None => n == o }
}
pub open spec fn unsubscribed(o: SubscriptionTree, n: SubscriptionTree, t: Seq<Seq<u8>>, id: u128) -> bool
    decreases t.len(),
{ if t.len() == 0 { n == o } else { exists|m: SubscriptionTree| #[trigger] unsubscribed1(o, m, t[0], id) && unsubscribed(m, n, t.sk(1), id) } }
proof fn lemma_views(t: Seq<(String, QosLevel)>)
    ensures filters_view(t).len() == t.len(), t.len() > 0 ==> filters_view(t)[0] == (sb(t[0].0), t[0].1 as u8) && filters_view(t.sk(1)) == filters_view(t).sk(1),
{ if t.len() > 0 { assert(filters_view(t.sk(1)) =~= filters_view(t).sk(1)); } }
proof fn lemma_topics(t: Seq<String>)
    ensures topics_view(t).len() == t.len(), t.len() > 0 ==> topics_view(t)[0] == sb(t[0]) && topics_view(t.sk(1)) == topics_view(t).sk(1),
{ if t.len() > 0 { assert(topics_view(t.sk(1)) =~= topics_view(t).sk(1)); } }
proof fn lemma_subscribed(o: SubscriptionTree, t: Seq<(Seq<u8>, u8)>, id: u128, bridge: Sender<ClientEvent>)
    ensures
        t.len() > 0 ==> match address(t[0].0) {
            Some((lv, g)) if ok_filter(lv) => forall|m: SubscriptionTree, n: SubscriptionTree, x: SubscriptionLeaf| #![trigger tree_ins(o, m, lv, g, x), subscribed(m, n, t.sk(1), id, bridge)]
                tree_ins(o, m, lv, g, x) && x.identifier == id && x.qos as u8 == t[0].1 && x.bridge == bridge && subscribed(m, n, t.sk(1), id, bridge) ==> subscribed(o, n, t, id, bridge),
            _ => forall|n: SubscriptionTree| subscribed(o, n, t.sk(1), id, bridge) ==> #[trigger] subscribed(o, n, t, id, bridge) },
        t.len() == 0 ==> subscribed(o, o, t, id, bridge),
{
    if t.len() > 0 {
        if address(t[0].0) is Some && ok_filter((address(t[0].0)->0).0) {
            let lv = (address(t[0].0)->0).0;
            let g = (address(t[0].0)->0).1;
            assert forall|m: SubscriptionTree, n: SubscriptionTree, x: SubscriptionLeaf| #![trigger tree_ins(o, m, lv, g, x), subscribed(m, n, t.sk(1), id, bridge)]
                tree_ins(o, m, lv, g, x) && x.identifier == id && x.qos as u8 == t[0].1 && x.bridge == bridge && subscribed(m, n, t.sk(1), id, bridge) implies subscribed(o, n, t, id, bridge) by {
                assert(subscribed1(o, m, t[0], id, bridge));
            }
        } else { assert(subscribed1(o, o, t[0], id, bridge)); }
    }
}
proof fn lemma_unsubscribed(o: SubscriptionTree, t: Seq<Seq<u8>>, id: u128)
    ensures
        t.len() > 0 ==> match address(t[0]) {
            Some((lv, g)) => forall|m: SubscriptionTree, n: SubscriptionTree| #![trigger tree_del(o, m, lv, g, id), unsubscribed(m, n, t.sk(1), id)]
                tree_del(o, m, lv, g, id) && unsubscribed(m, n, t.sk(1), id) ==> unsubscribed(o, n, t, id),
            None => forall|n: SubscriptionTree| unsubscribed(o, n, t.sk(1), id) ==> #[trigger] unsubscribed(o, n, t, id) },
        t.len() == 0 ==> unsubscribed(o, o, t, id),
{
    if t.len() > 0 {
        if address(t[0]) is Some {
            let lv = (address(t[0])->0).0;
            let g = (address(t[0])->0).1;
            assert forall|m: SubscriptionTree, n: SubscriptionTree| #![trigger tree_del(o, m, lv, g, id), unsubscribed(m, n, t.sk(1), id)]
                tree_del(o, m, lv, g, id) && unsubscribed(m, n, t.sk(1), id) implies unsubscribed(o, n, t, id) by { assert(unsubscribed1(o, m, t[0], id)); }
        } else { assert(unsubscribed1(o, o, t[0], id)); }
    }
}
pub open spec fn did_subscribe(a: App, log: Seq<Ev>, c: Seq<u8>, t: Seq<(Seq<u8>, u8)>, reply: int, b: App, log2: Seq<Ev>) -> bool {
    b.sessions@ == a.sessions@ && if a.sessions@.dom().contains(c) {
        let s = a.sessions@[c];
        subscribed(a.subscriptions, b.subscriptions, t, s.id, s.bridge)
        && exists|codes: Seq<u8>| #[trigger] codes_answer(codes, t) && log2 == log.push(Ev::Replied { to: reply, what: Rep::Subscribed(codes) })
    } else { b.subscriptions == a.subscriptions && log2 == log.push(Ev::Replied { to: reply, what: Rep::Refused }) }
}
pub open spec fn did_unsubscribe(a: App, log: Seq<Ev>, c: Seq<u8>, t: Seq<Seq<u8>>, reply: int, b: App, log2: Seq<Ev>) -> bool {
    b.sessions@ == a.sessions@ && if a.sessions@.dom().contains(c) {
        unsubscribed(a.subscriptions, b.subscriptions, t, a.sessions@[c].id) && log2 == log.push(Ev::Replied { to: reply, what: Rep::Unsubscribed })
    } else { b.subscriptions == a.subscriptions && log2 == log.push(Ev::Replied { to: reply, what: Rep::Refused }) }
}
//@fn core::App::subscribe (cid, topics, callback)
    requires twf(old(self).subscriptions), filters_view(topics@) == asked(callback.chan()),
    ensures
        twf(final(self).subscriptions),
        did_subscribe(*old(self), old(__w).log(), sb(cid), filters_view(topics@), callback.chan(), *final(self), final(__w).log()),
//@start
    let ghost o = self.subscriptions;
    let ghost m0 = self.sessions@;
    let ghost fv = filters_view(topics@);
    let ghost l0 = __w.log();
    let ghost s0 = self.sessions@[sb(cid)];
    proof { lemma_views(topics@); }
//@loop 0
    invariant
        self.sessions@ == m0, twf(self.subscriptions), __w.log() == l0, id == s0.id, bridge == s0.bridge,
        fv.len() == $out0@.len() + $it0.rem().len(),
        fv.sk($out0@.len() as int) == filters_view($it0.rem()),
        forall|i: int| 0 <= i < $out0@.len() ==> (#[trigger] $out0@[i]) as u8 == code_for(fv[i].0, fv[i].1),
        forall|n: SubscriptionTree| subscribed(self.subscriptions, n, filters_view($it0.rem()), id, bridge) ==> #[trigger] subscribed(o, n, fv, id, bridge),
    ensures
        $out0@.len() == fv.len(), subscribed(o, self.subscriptions, fv, id, bridge),
        codes_answer(codes_view($out0@), fv),
    decreases $it0.rem().len(),
//@loopstart 0
    proof {
        lemma_views($it0.rem());
        lemma_subscribed(self.subscriptions, filters_view($it0.rem()), id, bridge);
        if $it0.rem().len() > 0 {
            assert(fv.sk($out0@.len() as int).sk(1) =~= fv.sk($out0@.len() as int + 1));
            assert(fv[$out0@.len() as int] == fv.sk($out0@.len() as int)[0]);
        }
    }
//@end
//@fn core::App::unsubscribe (cid, topics, callback)
    requires twf(old(self).subscriptions),
    ensures
        twf(final(self).subscriptions),
        did_unsubscribe(*old(self), old(__w).log(), sb(cid), topics_view(topics@), callback.chan(), *final(self), final(__w).log()),
//@start
    let ghost o = self.subscriptions;
    let ghost m0 = self.sessions@;
    let ghost tv = topics_view(topics@);
    let ghost l0 = __w.log();
    let ghost s0 = self.sessions@[sb(cid)];
    proof { lemma_topics(topics@); }
//@loop 0
    invariant
        self.sessions@ == m0, twf(self.subscriptions), __w.log() == l0, id == s0.id,
        forall|n: SubscriptionTree| unsubscribed(self.subscriptions, n, topics_view($it0.rem()), id) ==> #[trigger] unsubscribed(o, n, tv, id),
    ensures unsubscribed(o, self.subscriptions, tv, id),
    decreases $it0.rem().len(),
//@loopstart 0
    proof { lemma_topics($it0.rem()); lemma_unsubscribed(self.subscriptions, topics_view($it0.rem()), id); }
//@end

// ================= connect and disconnect =================
pub open spec fn stored(m: Sessions, c: Seq<u8>, clean: bool) -> bool { m.dom().contains(c) && !clean && !m[c].clean }
pub open spec fn connected(m: Sessions, log: Seq<Ev>, c: Seq<u8>, channel: Sender<ClientEvent>, clean: bool, reply: int, n: Sessions, log2: Seq<Ev>) -> bool {
    let kicked = if m.dom().contains(c) { log.push(Ev::ToClient { chan: m[c].bridge.chan(), what: Out::Disc }) } else { log };
    // the connection that held the client identifier is ended [MQTT-3.1.4-2]
    &&& log2 == kicked.push(Ev::Replied { to: reply, what: Rep::Connected(stored(m, c, clean)) })
    &&& n.dom() =~= m.dom().insert(c)
    &&& forall|k: Seq<u8>| k != c && m.dom().contains(k) ==> #[trigger] n[k] == m[k]
    &&& n[c].bridge == channel && n[c].clean == clean
    // a stored session is resumed: same identity, so its subscriptions are still its own [MQTT-3.1.2-4]; otherwise a new one [MQTT-3.1.2-6]
    &&& if stored(m, c, clean) { n[c] == (Session { bridge: channel, ..m[c] }) } else { from_uuid(n[c].id) && n[c].last_packet_id == 0 }
}
pub open spec fn ended(m: Sessions, c: Seq<u8>, channel: Sender<ClientEvent>) -> Sessions {
    if m.dom().contains(c) && m[c].clean && m[c].bridge.chan() == channel.chan() { m.remove(c) } else { m }
}
//@fn core::App::connect (client_id, message_channel, _protocol, clean_session, callback)
    requires twf(old(self).subscriptions),
    ensures
        final(self).subscriptions == old(self).subscriptions,
        connected(old(self).sessions@, old(__w).log(), sb(client_id), message_channel, clean_session, callback.chan(), final(self).sessions@, final(__w).log()),
//@end
//@fn core::App::disconnect (cid, message_channel)
    requires twf(old(self).subscriptions),
    ensures
        final(self).subscriptions == old(self).subscriptions,
        final(self).sessions@ == ended(old(self).sessions@, sb(cid), message_channel),
//@end

// ================= the task that owns the broker's state =================
#[verifier::external_body]
pub struct CommandReceiver {}
impl CommandReceiver {
    /// the commands still to come, up to the end of the channel
    pub uninterp spec fn rem(&self) -> Seq<Command>;
    #[verifier::external_body]
    pub fn recv(&mut self, __w: &mut World) -> (r: Option<Command>)
        ensures
            final(__w).log() == old(__w).log(),
            old(self).rem().len() == 0 ==> r is None && final(self).rem() == old(self).rem(),
            old(self).rem().len() > 0 ==> r == Some(old(self).rem()[0]) && final(self).rem() == old(self).rem().sk(1) && cmd_ok(r->0),
    { unimplemented!() }
}
/// what each command does to the state and to the world
pub open spec fn handled(a: App, l: Seq<Ev>, c: Command, b: App, l2: Seq<Ev>) -> bool {
    match c {
        Command::RegisterClient { id, message_channel, clean_session, callback, .. } =>
            a.subscriptions == b.subscriptions && connected(a.sessions@, l, sb(id), message_channel, clean_session, callback.chan(), b.sessions@, l2),
        Command::Subscribe { client, topics, callback } => did_subscribe(a, l, sb(client), filters_view(topics@), callback.chan(), b, l2),
        Command::Unsubscribe { topics, cid, callback } => did_unsubscribe(a, l, sb(cid), topics_view(topics@), callback.chan(), b, l2),
        Command::Publish { topic, qos, payload } => a.subscriptions == b.subscriptions && appended(l, l2, Msg { topic: sb(topic), qos, payload: payload@ })
            && (ids_ok(a.sessions@) ==> ids_ok(b.sessions@) && published(a, l, Msg { topic: sb(topic), qos, payload: payload@ }, b, l2)),
        Command::DisconnectClient(cid, channel) => a.subscriptions == b.subscriptions && b.sessions@ == ended(a.sessions@, sb(cid), channel) && l2 == l,
        Command::Exit => a == b && l2 == l,
    }
}
/// every command in turn, up to the end or the command to exit
pub open spec fn served(a: App, l: Seq<Ev>, cs: Seq<Command>, b: App, l2: Seq<Ev>) -> bool
    decreases cs.len(),
{
    if cs.len() == 0 || cs[0] is Exit { a == b && l2 == l }
    else { exists|m: App, lm: Seq<Ev>| #[trigger] handled(a, l, cs[0], m, lm) && served(m, lm, cs.sk(1), b, l2) }
}
/// what is left to serve, served from here, completes the whole from an empty broker
#[verifier::opaque]
pub open spec fn sofar(c: App, l: Seq<Ev>, rem: Seq<Command>, l0: Seq<Ev>, cs: Seq<Command>) -> bool {
    exists|a: App| #[trigger] empty_app(a) && forall|b: App, l2: Seq<Ev>| #[trigger] served(c, l, rem, b, l2) ==> served(a, l0, cs, b, l2)
}
proof fn lemma_sofar(c: App, l: Seq<Ev>, rem: Seq<Command>, l0: Seq<Ev>, cs: Seq<Command>)
    requires sofar(c, l, rem, l0, cs),
    ensures
        rem.len() == 0 || rem[0] is Exit ==> exists|a: App| #[trigger] empty_app(a) && served(a, l0, cs, c, l),
        rem.len() > 0 && !(rem[0] is Exit) ==> forall|m: App, lm: Seq<Ev>| #![trigger sofar(m, lm, rem.sk(1), l0, cs)] handled(c, l, rem[0], m, lm) ==> sofar(m, lm, rem.sk(1), l0, cs),
{
    reveal(sofar);
    let a = choose|a: App| #[trigger] empty_app(a) && forall|b: App, l2: Seq<Ev>| #[trigger] served(c, l, rem, b, l2) ==> served(a, l0, cs, b, l2);
    if rem.len() == 0 || rem[0] is Exit { assert(served(c, l, rem, c, l)); assert(empty_app(a)); }
    else {
        assert forall|m: App, lm: Seq<Ev>| #![trigger sofar(m, lm, rem.sk(1), l0, cs)] handled(c, l, rem[0], m, lm) implies sofar(m, lm, rem.sk(1), l0, cs) by {
            assert forall|b: App, l2: Seq<Ev>| #[trigger] served(m, lm, rem.sk(1), b, l2) implies served(a, l0, cs, b, l2) by { assert(served(c, l, rem, b, l2)); }
            assert(empty_app(a));
        }
    }
}
proof fn lemma_sofar_start(l0: Seq<Ev>, cs: Seq<Command>)
    ensures forall|a: App| empty_app(a) ==> #[trigger] sofar(a, l0, cs, l0, cs),
{ reveal(sofar); }
// ================= theorem: what is sent to the clients comes in the order of the commands =================
/// this event is (part of) the answer to this command
pub open spec fn made_by(e: Ev, c: Command) -> bool {
    match e {
        Ev::ToClient { chan, what: Out::Msg(b) } => c is Publish && made_of(e, Msg { topic: sb(c->topic), qos: c->qos, payload: c->payload@ }),
        Ev::ToClient { chan, what: Out::Disc } => c is RegisterClient,
        Ev::Replied { to, what } => !(c is Publish),
    }
}
/// every new event is made by one command, and no event is made by an earlier command than an event before it
pub open spec fn in_order(l: Seq<Ev>, cs: Seq<Command>, l2: Seq<Ev>, by: Seq<int>) -> bool {
    &&& l.len() + by.len() == l2.len() && l2.take(l.len() as int) =~= l
    &&& forall|i: int| 0 <= i < by.len() ==> 0 <= #[trigger] by[i] < cs.len() && made_by(l2[l.len() + i], cs[by[i]])
    &&& forall|i: int, j: int| #![trigger by[i], by[j]] 0 <= i <= j < by.len() ==> by[i] <= by[j]
}
proof fn lemma_made(a: App, l: Seq<Ev>, c: Command, b: App, l2: Seq<Ev>)
    requires handled(a, l, c, b, l2),
    ensures l.len() <= l2.len(), l2.take(l.len() as int) =~= l, forall|i: int| l.len() <= i < l2.len() ==> made_by(#[trigger] l2[i], c),
{
    reveal(appended);
    match c {
        Command::Publish { topic, qos, payload } => {
            let m = Msg { topic: sb(topic), qos, payload: payload@ };
            assert forall|i: int| l.len() <= i < l2.len() implies made_by(#[trigger] l2[i], c) by { assert(made_of(l2[i], m)); }
        },
        _ => {},
    }
}
proof fn theorem_order(a: App, l: Seq<Ev>, cs: Seq<Command>, b: App, l2: Seq<Ev>)
    requires served(a, l, cs, b, l2),
    ensures exists|by: Seq<int>| #[trigger] in_order(l, cs, l2, by),
    decreases cs.len(),
{
    if cs.len() == 0 || cs[0] is Exit {
        assert(in_order(l, cs, l2, Seq::empty()));
    } else {
        let (m, lm) = choose|m: App, lm: Seq<Ev>| #[trigger] handled(a, l, cs[0], m, lm) && served(m, lm, cs.sk(1), b, l2);
        lemma_made(a, l, cs[0], m, lm);
        theorem_order(m, lm, cs.sk(1), b, l2);
        let rest = choose|by: Seq<int>| #[trigger] in_order(lm, cs.sk(1), l2, by);
        let k = lm.len() - l.len();
        let by = Seq::new((k + rest.len()) as nat, |i: int| if i < k { 0 } else { rest[i - k] + 1 });
        assert(l2.take(l.len() as int) =~= l2.take(lm.len() as int).take(l.len() as int));
        assert forall|i: int| 0 <= i < by.len() implies 0 <= #[trigger] by[i] < cs.len() && made_by(l2[l.len() + i], cs[by[i]]) by {
            if i < k { assert(l2[l.len() + i] == l2.take(lm.len() as int)[l.len() + i]); assert(made_by(lm[l.len() + i], cs[0])); }
            else { let r = rest[i - k]; assert(cs.sk(1)[r] == cs[r + 1]); }
        }
        assert forall|i: int, j: int| #![trigger by[i], by[j]] 0 <= i <= j < by.len() implies by[i] <= by[j] by {
            if j >= k { let r = rest[j - k]; if i >= k { let q = rest[i - k]; } }
        }
        assert(in_order(l, cs, l2, by));
    }
}
/// two messages on one topic at one level of service: the first published is not sent after the second
proof fn theorem_two_messages(l: Seq<Ev>, cs: Seq<Command>, l2: Seq<Ev>, by: Seq<int>, i: int, j: int)
    requires in_order(l, cs, l2, by), 0 <= i < by.len(), 0 <= j < by.len(), by[i] < by[j],
    ensures i < j,
{ if j <= i { assert(by[j] <= by[i]); } }
/// a new session identity that differs from the others keeps them all distinct (identities are 122 random bits)
proof fn theorem_ids(m: Sessions, log: Seq<Ev>, c: Seq<u8>, channel: Sender<ClientEvent>, clean: bool, reply: int, n: Sessions, log2: Seq<Ev>)
    requires ids_ok(m), connected(m, log, c, channel, clean, reply, n, log2),
        !stored(m, c, clean) ==> forall|k: Seq<u8>| #[trigger] m.dom().contains(k) && k != c ==> m[k].id != n[c].id,
    ensures ids_ok(n),
{
    assert forall|a: Seq<u8>, b: Seq<u8>| #![trigger n[a], n[b]] n.dom().contains(a) && n.dom().contains(b) && n[a].id == n[b].id implies a == b by {
        if a != c { assert(m.dom().contains(a)); assert(n[a] == m[a]); }
        if b != c { assert(m.dom().contains(b)); assert(n[b] == m[b]); }
        if a != b && m.dom().contains(c) { let x = m[c]; }
    }
}
//@fn main::async#0 (rx)
//@params rx: &mut CommandReceiver
    ensures exists|a: App, b: App| #[trigger] empty_app(a) && #[trigger] served(a, old(__w).log(), old(rx).rem(), b, final(__w).log()),
//@start
    let ghost l0 = __w.log();
    let ghost cs = rx.rem();
    proof { lemma_sofar_start(l0, cs); }
//@loop 0
    invariant_except_break
        twf(context.subscriptions),
        sofar(context, __w.log(), rx.rem(), l0, cs),
    ensures exists|a: App, b: App| #[trigger] empty_app(a) && #[trigger] served(a, l0, cs, b, __w.log()),
    decreases rx.rem().len(),
//@loopstart 0
    proof { lemma_sofar(context, __w.log(), rx.rem(), l0, cs); }
//@end
