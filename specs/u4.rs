//@unit connections
//@opaque sb be16 mqtt_name is_mqtt enc_len ok_str decode encode frame refused_level refused_client_id whole head malformed_len msg_ok dec_len code_for
//@include shim_base.rs
//@include spec_mqtt.rs
//@type core::enums::Responder
//@type core::enums::Receiver
//@type core::enums::Command
//@type core::enums::ClientEvent
//@include types_codec.rs
//@include spec_refused.rs
pub uninterp spec fn split_at(s: Seq<u8>, c: u8) -> Seq<Seq<u8>>;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sender<T> { t: Vec<T> }
impl<T> Sender<T> {
    pub uninterp spec fn chan(&self) -> int;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Sender<T>) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn same_channel(&self, other: &Sender<T>) -> (r: bool) ensures r == (self.chan() == other.chan()) { unimplemented!() }
}
//@include spec_filter.rs
//@include spec_cmd.rs
//@include spec_conn.rs
//@include lemma_conn.rs
//@include shim_conn.rs

//@use u1.rs packets::Packet::unpack
//@use u1.rs packets::Packet::complete_len
//@use u1.rs packets::Packet::make_connack
//@use u1.rs packets::Packet::make_suback
//@use u1.rs packets::Packet::make_unsuback
//@use u1.rs packets::Packet::make_puback
//@use u1.rs packets::Packet::make_pubrec
//@use u1.rs packets::Packet::make_pubrel
//@use u1.rs packets::Packet::make_pubcomp
//@use u1.rs packets::Packet::make_ping_resp
//@use u1.rs packets::Packet::make_publish
//@use u1.rs packets::headers::fixed_header::FixedHeader::get_qos
//@use u1.rs packets::headers::fixed_header::FixedHeader::get_dup
//@use u1.rs packets::headers::fixed_header::FixedHeader::get_retain
//@use u1.rs packets::headers::connect::Flags::clean_session

// ================= reading packets =================
pub open spec fn stream(p: BytesMut, r: NetReader) -> Seq<u8> { p@ + r.unread() }
/// an abandoned `read_packet` stopped at one of its waiting points: it may have moved bytes from the reader to `pending`
#[verifier::external_body]
pub fn abandoned_read(r: &mut NetReader, p: &mut BytesMut)
    ensures stream(*final(p), *final(r)) == stream(*old(p), *old(r)),
{ unimplemented!() }
/// the packet that was taken, or why none can be
pub open spec fn read_ok(all: Seq<u8>, r: Result<Option<(Packet, usize)>, MqttError>, after: Seq<u8>) -> bool {
    match r {
        Ok(Some((p, n))) => whole(all) && frame(all) == Some(n as int) && decode(head(all)) is Some && (decode(head(all))->0).1 == n
            && p.fixed.flags == all[0] && represents(p.variable, all[0], (decode(head(all))->0).0) && after == all.sk(n as int),
        Ok(None) => !whole(all),
        Err(e) => e is Io
            || (plain_err(e) && malformed_len(all))
            || (whole(all) && decode(head(all)) is None
                && (e is UnacceptableProtocolLevel <==> refused_level(head(all))) && (e is ClientIdentifierRejected <==> refused_client_id(head(all)))),
    }
}
//@fn handler::read_packet (reader, pending, protocol) -> r
    ensures
        final(__w).st() == old(__w).st(),
        read_ok(stream(*old(pending), *old(reader)), r, stream(*final(pending), *final(reader))),
//@start
    let ghost all = stream(*pending, *reader);
    proof { reveal(whole); reveal(head); reveal(malformed_len); reveal(decode); reveal(frame); reveal(refused_level); reveal(refused_client_id); reveal(dec_len); }
//@loop 0
    invariant
        stream(*pending, *reader) == all, __w.st() == old(__w).st(), all == stream(*old(pending), *old(reader)),
    decreases reader.unread().len(),
//@loopstart 0
    let ghost p0 = pending@;
    let ghost u0 = reader.unread();
    proof {
        reveal(whole); reveal(head); reveal(malformed_len); reveal(decode); reveal(frame); reveal(refused_level); reveal(refused_client_id); reveal(dec_len);
        theorem_prefix(p0, u0);
        if frame(p0) is Some && frame(p0)->0 <= p0.len() {
            assert(all.take(frame(p0)->0) =~= p0.take(frame(p0)->0));
            assert(all.sk(frame(p0)->0) =~= p0.sk(frame(p0)->0) + u0);
        }
        if u0.len() == 0 { assert(all =~= p0); }
        assert forall|k: int| 0 <= k <= u0.len() implies #[trigger] (p0 + u0.take(k)) + u0.sk(k) =~= all by {}
    }
//@await \.fill_buf\(
    // wherever it waits (and may be abandoned), no byte is held elsewhere, and no whole packet is held back
    assert(stream(*pending, *reader) == all);
    assert(!whole(pending@));
//@end

// ================= the connection =================
pub open spec fn read_ev(r: Result<Option<(Packet, usize)>, MqttError>) -> CEv {
    match r { Ok(Some(_)) => CEv::Took, Ok(None) => CEv::NoMore, Err(e) => CEv::ReadErr { io: e is Io } }
}
/// the sizes of what a packet can carry
proof fn lemma_filters_len(b: Seq<u8>)
    ensures sp_filters(b) is Some ==> 3 * (sp_filters(b)->0).len() <= b.len(),
    decreases b.len(),
{
    reveal(sp_str); reveal(sp_u16); reveal(sp_bytes);
    if b.len() > 0 {
        match sp_str(b) { Some((t, b1)) => { if b1.len() >= 1 && b1.len() < b.len() { lemma_filters_len(b1.sk(1)); } }, None => {} }
    }
}
proof fn lemma_sizes(b: Seq<u8>)
    ensures match decode(b) {
        Some((SPacket::Publish { flags, topic, id, payload }, n)) => qos_of(flags) <= 2 && (id is Some <==> qos_of(flags) > 0) && flags == b[0]
            && msg_ok(Msg { topic, qos: level(qos_of(flags)), payload }),
        Some((SPacket::Subscribe { id, filters }, n)) => filters.len() + 2 <= MAX_REMLEN,
        _ => true },
{
    reveal(sp_str); reveal(sp_u16); reveal(sp_bytes); reveal(decode); reveal(msg_ok); reveal(dec_len);
    if b.len() >= 1 { match dec_len(b.sk(1)) {
        VarInt::Value(v, n) => {
            assert(v <= MAX_REMLEN);
            if b.len() >= 1 + n + v {
                let body = b.subrange(1 + n, 1 + n + v);
                if body.len() >= 2 { lemma_filters_len(body.sk(2)); }
            }
        },
        _ => {} } }
}
proof fn lemma_one_reason(b: Seq<u8>)
    ensures
        malformed_len(b) ==> !whole(b),
        !(refused_level(head(b)) && refused_client_id(head(b))),
{ reveal(whole); reveal(malformed_len); reveal(frame); reveal(refused_level); reveal(refused_client_id); }
pub open spec fn same(a: QosLevel, b: QosLevel) -> bool { a == b }
proof fn lemma_levels() ensures level(0) is AtMost, level(1) is AtLeast, level(2) is Exactly, forall|q: QosLevel| #[trigger] same(q, q) ==> level(q as u8) == q {}
//@fn handler::client_handler (read_stream, writer, message_bridge, cancellation) -> r
//@locals keepalive_duration has_connected protocol cid received keepalive_timer reader pending tx rx
//@attr #[verifier::exec_allows_no_decreases_clause]
//@split connect fut__ matches Ok(Some((p, _))) && p.variable is Connect
//@split subscribe fut__ matches Ok(Some((p, _))) && p.variable is Subscribe
//@split unsubscribe fut__ matches Ok(Some((p, _))) && p.variable is Unsubscribe
//@split publish fut__ matches Ok(Some((p, _))) && p.variable is Publish
//@split pubrec fut__ matches Ok(Some((p, _))) && p.variable is PubRec
//@split pubrel fut__ matches Ok(Some((p, _))) && p.variable is PubRel
//@split other_packet fut__ matches Ok(Some((p, _))) && !(p.variable is Connect || p.variable is Subscribe || p.variable is Unsubscribe || p.variable is Publish || p.variable is PubRec || p.variable is PubRel)
    requires old(__w).st() == start(read_stream.unread()),
    ensures over(final(__w).st()),
//@start
    broadcast use axiom_instant;
//@loop 0
    invariant_except_break
        idle(__w.st()),
        timed(__w.st()),
        __w.st().rest == stream(pending, reader),
        has_connected == __w.st().connected,
        __w.st().given == __w.st().connected,
        has_connected ==> cid is Some && sb(cid->0) == __w.st().cid && __w.st().me == tx.chan(),
        has_connected ==> keepalive_duration.millis() == __w.st().ka,
        received@ == __w.st().received,
        tx.chan() == rx.chan(),
    ensures over(__w.st()),
//@select
    proof {
        assert(arms__@[$arm{keepalive_timer}] == (__w.st().ka > 0) || !__w.st().connected);
        assert(arms__@[$arm{read_packet}] && arms__@[$arm{\brecv\b}]);
    }
    proof { assert(idle(__w.st())); }
    proof { assert(timed(__w.st())); }
    __w.note(Ghost(CEv::Turn));
    abandoned_read(&mut reader, &mut pending);
    let ghost st0 = __w.st();
    proof { broadcast use axiom_instant; }
//@got read_packet
    $split
    proof { lemma_sizes(head(__w.st().rest)); lemma_levels(); lemma_one_reason(__w.st().rest); }
    __w.note(Ghost(read_ev(fut__)));
//@got keepalive_timer
    $rest
//@got recv
    $rest
//@got cancelled
    $rest
    __w.note(Ghost(CEv::Cancelled));
//@end
//@fn main::async#1 (stream, message_brige, cancellation)
//@params stream: NetStream; message_brige: Sender<Command>; cancellation: CancellationToken
    requires old(__w).st() == start(stream.unread()),
    ensures over(final(__w).st()),
//@end
