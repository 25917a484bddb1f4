// MQTT 3.1.1 wire format as mathematical functions on byte sequences (from the standard, not from the code).

// ---- 2.2.3 remaining length ----
pub open spec fn enc_len(n: nat) -> Seq<u8>
    decreases n,
{
    if n < 128 { seq![n as u8] } else { seq![(n % 128 + 128) as u8] + enc_len(n / 128) }
}
pub spec const MAX_REMLEN: nat = 268435455;
pub enum VarInt { Value(int, int), Incomplete, TooLong }
/// value and number of bytes of the variable length integer at the start of b
pub open spec fn dec_len(b: Seq<u8>) -> VarInt {
    if b.len() < 1 { VarInt::Incomplete }
    else if b[0] < 128 { VarInt::Value(b[0] as int, 1) }
    else if b.len() < 2 { VarInt::Incomplete }
    else if b[1] < 128 { VarInt::Value((b[0] - 128 + 128 * b[1]) as int, 2) }
    else if b.len() < 3 { VarInt::Incomplete }
    else if b[2] < 128 { VarInt::Value((b[0] - 128 + 128 * (b[1] - 128) + 16384 * b[2]) as int, 3) }
    else if b.len() < 4 { VarInt::Incomplete }
    else if b[3] < 128 { VarInt::Value((b[0] - 128 + 128 * (b[1] - 128) + 16384 * (b[2] - 128) + 2097152 * b[3]) as int, 4) }
    else { VarInt::TooLong }
}

// ---- 1.5 data representations: Some((value, rest)) ----
#[verifier::opaque]
pub open spec fn sp_u16(b: Seq<u8>) -> Option<(u16, Seq<u8>)> {
    if b.len() < 2 { None } else { Some(((b[0] * 256 + b[1]) as u16, b.sk(2))) }
}
pub open spec fn sp_id(b: Seq<u8>) -> Option<(u16, Seq<u8>)> {
    match sp_u16(b) { Some((id, r)) => if id == 0 { None } else { Some((id, r)) }, None => None }
}
pub open spec fn sp_u8(b: Seq<u8>) -> Option<(u8, Seq<u8>)> {
    if b.len() < 1 { None } else { Some((b[0], b.sk(1))) }
}
#[verifier::opaque]
pub open spec fn sp_bytes(b: Seq<u8>, n: int) -> Option<(Seq<u8>, Seq<u8>)> {
    if b.len() < n { None } else { Some((b.take(n), b.sk(n))) }
}
/// binary data: two byte length, then that many bytes
pub open spec fn sp_bin(b: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match sp_u16(b) { Some((n, r)) => sp_bytes(r, n as int), None => None }
}
/// [MQTT-1.5.3-1] [MQTT-1.5.3-2]
pub open spec fn ok_str(s: Seq<u8>) -> bool { valid_utf8(s) && !s.contains(0u8) }
#[verifier::opaque]
pub open spec fn sp_str(b: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match sp_bin(b) { Some((s, r)) => if ok_str(s) { Some((s, r)) } else { None }, None => None }
}
pub open spec fn en_str(s: Seq<u8>) -> Seq<u8> { be16(s.len() as u16) + s }
/// p followed by the string (or binary) field s
pub open spec fn ap_str(p: Seq<u8>, s: Seq<u8>) -> Seq<u8> { p + be16(s.len() as u16) + s }

// ---- packets ----
#[allow(inconsistent_fields)]
pub enum SPacket {
    Connect { flags: u8, keepalive: u16, client_id: Seq<u8>, will_topic: Option<Seq<u8>>, will_message: Option<Seq<u8>>,
        username: Option<Seq<u8>>, password: Option<Seq<u8>> },
    Connack { flags: u8, code: u8 },
    Publish { flags: u8, topic: Seq<u8>, id: Option<u16>, payload: Seq<u8> },
    /// PUBACK, PUBREC, PUBREL, PUBCOMP, UNSUBACK: only an identifier
    Ack { kind: u8, id: u16 },
    Subscribe { id: u16, filters: Seq<(Seq<u8>, u8)> },
    Suback { id: u16, codes: Seq<u8> },
    Unsubscribe { id: u16, filters: Seq<Seq<u8>> },
    /// PINGREQ, PINGRESP, DISCONNECT
    Bare { kind: u8 },
}
/// type code and flag bits of the first byte
pub open spec fn ty_of(flags: u8) -> u8 { flags / 16 }
pub open spec fn low_of(flags: u8) -> u8 { flags % 16 }
pub open spec fn qos_of(flags: u8) -> u8 { (flags / 2) % 4 }
/// [MQTT-2.2.2-1] [MQTT-2.2.2-2], and the two type codes that are forbidden
pub open spec fn ok_first(flags: u8) -> bool {
    let t = ty_of(flags);
    1 <= t <= 14 && (if t == 3 { true } else if t == 6 || t == 8 || t == 10 { low_of(flags) == 2 } else { low_of(flags) == 0 })
}
pub open spec fn bit(x: u8, k: u8) -> bool { (x >> k) & 1 == 1 }
pub open spec fn c_username(f: u8) -> bool { f / 128 == 1 }
pub open spec fn c_password(f: u8) -> bool { (f / 64) % 2 == 1 }
pub open spec fn c_retain(f: u8) -> bool { (f / 32) % 2 == 1 }
pub open spec fn c_qos(f: u8) -> u8 { (f / 8) % 4 }
pub open spec fn c_will(f: u8) -> bool { (f / 4) % 2 == 1 }
pub open spec fn c_clean(f: u8) -> bool { (f / 2) % 2 == 1 }
pub open spec fn c_reserved(f: u8) -> bool { f % 2 == 1 }
/// [MQTT-3.1.2-3] and 3.1.2-11..22
pub open spec fn ok_connect_flags(f: u8) -> bool {
    !c_reserved(f) && c_qos(f) <= 2 && (!c_will(f) ==> c_qos(f) == 0 && !c_retain(f)) && (c_password(f) ==> c_username(f))
}
pub open spec fn is_mqtt(s: Seq<u8>) -> bool { s.len() == 4 && s[0] == 0x4D && s[1] == 0x51 && s[2] == 0x54 && s[3] == 0x54 }
pub open spec fn mqtt_name() -> Seq<u8> { seq![0x4Du8, 0x51, 0x54, 0x54] }

pub open spec fn opt_str(cond: bool, b: Seq<u8>) -> Option<(Option<Seq<u8>>, Seq<u8>)> {
    if !cond { Some((None, b)) } else { match sp_str(b) { Some((s, r)) => Some((Some(s), r)), None => None } }
}
pub open spec fn opt_bin(cond: bool, b: Seq<u8>) -> Option<(Option<Seq<u8>>, Seq<u8>)> {
    if !cond { Some((None, b)) } else { match sp_bin(b) { Some((s, r)) => Some((Some(s), r)), None => None } }
}
pub open spec fn sp_connect_fields(f: u8, ka: u16, b: Seq<u8>) -> Option<(SPacket, Seq<u8>)> {
    match sp_str(b) { None => None, Some((cid, b1)) =>
        if cid.len() == 0 && !c_clean(f) { None } else {
        match opt_str(c_will(f), b1) { None => None, Some((wt, b2)) =>
        match opt_bin(c_will(f), b2) { None => None, Some((wm, b3)) =>
        match opt_str(c_username(f), b3) { None => None, Some((us, b4)) =>
        match opt_bin(c_password(f), b4) { None => None, Some((pw, b5)) =>
            Some((SPacket::Connect { flags: f, keepalive: ka, client_id: cid, will_topic: wt, will_message: wm, username: us, password: pw }, b5))
        }}}}}
    }
}
/// the fixed part of the CONNECT header: protocol name, level, flags, keep alive
pub open spec fn sp_connect(b: Seq<u8>) -> Option<(SPacket, Seq<u8>)> {
    match sp_str(b) { None => None, Some((name, b1)) =>
        if !is_mqtt(name) || b1.len() < 2 || b1[0] != 4 || !ok_connect_flags(b1[1]) { None } else {
        match sp_u16(b1.sk(1).sk(1)) { None => None, Some((ka, b2)) => sp_connect_fields(b1[1], ka, b2) }
        }
    }
}
/// refused only because of its protocol level [MQTT-3.1.2-2]
pub open spec fn bad_level(b: Seq<u8>) -> bool {
    match sp_str(b) { None => false, Some((name, b1)) => is_mqtt(name) && b1.len() >= 1 && b1[0] != 4 }
}
/// refused only because of its client identifier [MQTT-3.1.3-8]
pub open spec fn bad_client_id(b: Seq<u8>) -> bool {
    match sp_str(b) { None => false, Some((name, b1)) =>
        is_mqtt(name) && b1.len() >= 2 && b1[0] == 4 && ok_connect_flags(b1[1]) && !c_clean(b1[1]) &&
        match sp_u16(b1.sk(1).sk(1)) { None => false, Some((ka, b2)) => match sp_str(b2) { None => false, Some((cid, b3)) => cid.len() == 0 } }
    }
}

/// [MQTT-4.7.3-1] [MQTT-3.3.2-2]
pub open spec fn ok_topic_name(t: Seq<u8>) -> bool { t.len() > 0 && !t.contains(0x23u8) && !t.contains(0x2Bu8) }
pub open spec fn sp_publish(flags: u8, b: Seq<u8>) -> Option<(SPacket, Seq<u8>)> {
    match sp_str(b) { None => None, Some((topic, b1)) =>
        if !ok_topic_name(topic) || qos_of(flags) > 2 { None }
        else if qos_of(flags) == 0 { Some((SPacket::Publish { flags, topic, id: None, payload: b1 }, Seq::empty())) }
        else { match sp_id(b1) { None => None, Some((id, b2)) => Some((SPacket::Publish { flags, topic, id: Some(id), payload: b2 }, Seq::empty())) } }
    }
}
pub open spec fn sp_filters(b: Seq<u8>) -> Option<Seq<(Seq<u8>, u8)>>
    decreases b.len(),
{
    if b.len() == 0 { Some(Seq::empty()) } else {
        match sp_str(b) { None => None, Some((t, b1)) =>
            if b1.len() < 1 || b1[0] > 2 || b1.len() >= b.len() { None } else {
            match sp_filters(b1.sk(1)) { None => None, Some(s) => Some(seq![(t, b1[0])] + s) } } }
    }
}
pub open spec fn sp_topics(b: Seq<u8>) -> Option<Seq<Seq<u8>>>
    decreases b.len(),
{
    if b.len() == 0 { Some(Seq::empty()) } else {
        match sp_str(b) { None => None, Some((t, b1)) =>
            if b1.len() >= b.len() { None } else {
            match sp_topics(b1) { None => None, Some(s) => Some(seq![t] + s) } } }
    }
}
pub open spec fn ok_suback_code(c: u8) -> bool { c <= 2 || c == 0x80 }
pub open spec fn sp_body(flags: u8, b: Seq<u8>) -> Option<(SPacket, Seq<u8>)> {
    let t = ty_of(flags);
    if !ok_first(flags) { None }
    else if t == 1 { sp_connect(b) }
    else if t == 2 { if b.len() < 2 || b[1] > 5 { None } else { Some((SPacket::Connack { flags: b[0], code: b[1] }, b.sk(1).sk(1))) } }
    else if t == 3 { sp_publish(flags, b) }
    else if t == 4 || t == 5 || t == 6 || t == 7 || t == 11 {
        match sp_u16(b) { None => None, Some((id, r)) => Some((SPacket::Ack { kind: t, id }, r)) } }
    else if t == 8 { match sp_id(b) { None => None, Some((id, r)) =>
        if r.len() == 0 { None } else { match sp_filters(r) { None => None, Some(filters) => Some((SPacket::Subscribe { id, filters }, Seq::empty())) } } } }
    else if t == 9 { match sp_u16(b) { None => None, Some((id, r)) =>
        if exists|i: int| 0 <= i < r.len() && !ok_suback_code(#[trigger] r[i]) { None } else { Some((SPacket::Suback { id, codes: r }, Seq::empty())) } } }
    else if t == 10 { match sp_id(b) { None => None, Some((id, r)) =>
        if r.len() == 0 { None } else { match sp_topics(r) { None => None, Some(filters) => Some((SPacket::Unsubscribe { id, filters }, Seq::empty())) } } } }
    else { Some((SPacket::Bare { kind: t }, b)) }
}
/// total size of the packet at the start of b, when its header is there
pub open spec fn frame(b: Seq<u8>) -> Option<int> {
    if b.len() < 1 { None } else { match dec_len(b.sk(1)) { VarInt::Value(v, n) => Some(1 + n + v), _ => None } }
}
/// THE decoder: the packet at the start of b and its size; None when it is incomplete or malformed
pub open spec fn decode(b: Seq<u8>) -> Option<(SPacket, int)> {
    if b.len() < 1 { None } else { match dec_len(b.sk(1)) {
        VarInt::Value(v, n) => if b.len() < 1 + n + v { None } else {
            match sp_body(b[0], b.subrange(1 + n, 1 + n + v)) { Some((p, rest)) => if rest.len() == 0 { Some((p, 1 + n + v)) } else { None }, None => None } },
        _ => None } }
}

// ---- encoding ----
pub open spec fn ap_filters(p: Seq<u8>, f: Seq<(Seq<u8>, u8)>) -> Seq<u8>
    decreases f.len(),
{
    if f.len() == 0 { p } else { ap_filters(ap_str(p, f[0].0).push(f[0].1), f.sk(1)) }
}
pub open spec fn ap_topics(p: Seq<u8>, f: Seq<Seq<u8>>) -> Seq<u8>
    decreases f.len(),
{
    if f.len() == 0 { p } else { ap_topics(ap_str(p, f[0]), f.sk(1)) }
}
pub open spec fn ap_bytes(p: Seq<u8>, f: Seq<u8>) -> Seq<u8>
    decreases f.len(),
{
    if f.len() == 0 { p } else { ap_bytes(p.push(f[0]), f.sk(1)) }
}
pub open spec fn ap_opt(p: Seq<u8>, x: Option<Seq<u8>>) -> Seq<u8> { match x { None => p, Some(s) => ap_str(p, s) } }
pub open spec fn nil() -> Seq<u8> { Seq::empty() }
pub open spec fn en_body(p: SPacket) -> Seq<u8> {
    match p {
        SPacket::Connect { flags, keepalive, client_id, will_topic, will_message, username, password } =>
            ap_opt(ap_opt(ap_opt(ap_opt(ap_str(
                ap_str(nil(), mqtt_name()).push(4u8).push(flags) + be16(keepalive),
                client_id), will_topic), will_message), username), password),
        SPacket::Connack { flags, code } => nil().push(flags).push(code),
        SPacket::Publish { flags, topic, id, payload } =>
            (match id { None => ap_str(nil(), topic), Some(i) => ap_str(nil(), topic) + be16(i) }) + payload,
        SPacket::Ack { kind, id } => nil() + be16(id),
        SPacket::Subscribe { id, filters } => ap_filters(nil() + be16(id), filters),
        SPacket::Suback { id, codes } => ap_bytes(nil() + be16(id), codes),
        SPacket::Unsubscribe { id, filters } => ap_topics(nil() + be16(id), filters),
        SPacket::Bare { kind } => nil(),
    }
}
pub open spec fn first_byte(p: SPacket) -> u8 {
    match p {
        SPacket::Connect { .. } => 0x10,
        SPacket::Connack { .. } => 0x20,
        SPacket::Publish { flags, .. } => flags,
        SPacket::Ack { kind, .. } => if kind == 6 { 0x62 } else { (kind * 16) as u8 },
        SPacket::Subscribe { .. } => 0x82,
        SPacket::Suback { .. } => 0x90,
        SPacket::Unsubscribe { .. } => 0xA2,
        SPacket::Bare { kind } => (kind * 16) as u8,
    }
}
/// THE encoder
pub open spec fn frame_of(first: u8, body: Seq<u8>) -> Seq<u8> { seq![first] + enc_len(body.len()) + body }
pub open spec fn encode(p: SPacket) -> Seq<u8> { frame_of(first_byte(p), en_body(p)) }

/// packets whose encoding means what they say
pub open spec fn wf_opt_str(x: Option<Seq<u8>>, want: bool) -> bool { match x { None => !want, Some(s) => want && s.len() <= 65535 && ok_str(s) } }
pub open spec fn wf_opt_bin(x: Option<Seq<u8>>, want: bool) -> bool { match x { None => !want, Some(s) => want && s.len() <= 65535 } }
pub open spec fn wf_packet(p: SPacket) -> bool {
    en_body(p).len() <= MAX_REMLEN && match p {
        SPacket::Connect { flags, keepalive, client_id, will_topic, will_message, username, password } =>
            ok_connect_flags(flags) && client_id.len() <= 65535 && ok_str(client_id) && (client_id.len() == 0 ==> c_clean(flags))
            && wf_opt_str(will_topic, c_will(flags)) && wf_opt_bin(will_message, c_will(flags))
            && wf_opt_str(username, c_username(flags)) && wf_opt_bin(password, c_password(flags)),
        SPacket::Connack { flags, code } => code <= 5,
        SPacket::Publish { flags, topic, id, payload } =>
            ty_of(flags) == 3 && qos_of(flags) <= 2 && topic.len() <= 65535 && ok_str(topic) && ok_topic_name(topic)
            && (id is Some <==> qos_of(flags) > 0) && (id is Some ==> id->0 != 0),
        SPacket::Ack { kind, id } => kind == 4 || kind == 5 || kind == 6 || kind == 7 || kind == 11,
        SPacket::Subscribe { id, filters } => id != 0 && filters.len() > 0
            && forall|i: int| 0 <= i < filters.len() ==> (#[trigger] filters[i]).0.len() <= 65535 && ok_str(filters[i].0) && filters[i].1 <= 2,
        SPacket::Suback { id, codes } => forall|i: int| 0 <= i < codes.len() ==> ok_suback_code(#[trigger] codes[i]),
        SPacket::Unsubscribe { id, filters } => id != 0 && filters.len() > 0
            && forall|i: int| 0 <= i < filters.len() ==> (#[trigger] filters[i]).len() <= 65535 && ok_str(filters[i]),
        SPacket::Bare { kind } => kind == 12 || kind == 13 || kind == 14,
    }
}
