#[verifier::external_body]
pub struct Error {}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct SendError<T> { t: T }
#[verifier::reject_recursive_types(T)]
pub enum TrySendError<T> { Full(T), Closed(T) }
#[verifier::external_body]
pub struct JoinError {}
pub use std::string::FromUtf8Error;
//@type error::MqttError
//@type core::enums::ProtocalVersion derive(Copy, Clone, PartialEq, Eq)
//@type packets::enums::PacketType derive(Copy, Clone, PartialEq, Eq)
//@type packets::enums::QosLevel derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord)
//@type packets::enums::ConnectReturnCode derive(Copy, Clone)
//@type packets::enums::SubackReturnCode derive(Copy, Clone)
//@type packets::PayloadFormat derive(Copy, Clone)
//@type packets::PubRecReasonCode derive(Copy, Clone)
//@type packets::PubReasonCode derive(Copy, Clone)
//@type packets::headers::connect::Flags
//@type packets::headers::connack::AcknowledgeFlags
//@type packets::headers::fixed_header::FixedHeader
//@type packets::VariableHeader
//@type packets::Packet
//@const packets::utils::MAX_ENCODED_SIZE
//@const packets::utils::MAX_ENCODED_BYTES

//@include qos_ord.rs
impl PartialEqSpecImpl for ProtocalVersion {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ProtocalVersion) -> bool { *self == *other }
}
impl PartialEqSpecImpl for PacketType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &PacketType) -> bool { *self == *other }
}

// ---- what a parsed packet says ----
pub open spec fn ob(x: Option<String>) -> Option<Seq<u8>> { match x { None => None, Some(s) => Some(sb(s)) } }
pub open spec fn obytes(x: Option<Bytes>) -> Option<Seq<u8>> { match x { None => None, Some(s) => Some(s@) } }
pub open spec fn filters_view(t: Seq<(String, QosLevel)>) -> Seq<(Seq<u8>, u8)> { t.map_values(|x: (String, QosLevel)| (sb(x.0), x.1 as u8)) }
pub open spec fn topics_view(t: Seq<String>) -> Seq<Seq<u8>> { t.map_values(|x: String| sb(x)) }
pub open spec fn codes_view(t: Seq<SubackReturnCode>) -> Seq<u8> { t.map_values(|x: SubackReturnCode| x as u8) }
pub open spec fn vh_view(v: VariableHeader, flags: u8) -> SPacket {
    match v {
        VariableHeader::Connect { flags: f, keepalive, client_id, username, password, will_topic, will_message, .. } =>
            SPacket::Connect { flags: f.0, keepalive, client_id: sb(client_id), will_topic: ob(will_topic), will_message: obytes(will_message),
                username: ob(username), password: obytes(password) },
        VariableHeader::ConnAck { acknowledge_flags, return_code, .. } => SPacket::Connack { flags: acknowledge_flags.0, code: return_code as u8 },
        VariableHeader::Subscribe { packet_id, tuples, .. } => SPacket::Subscribe { id: packet_id, filters: filters_view(tuples@) },
        VariableHeader::Unsubscribe { packet_id, tuples, .. } => SPacket::Unsubscribe { id: packet_id, filters: topics_view(tuples@) },
        VariableHeader::Publish { topic, packet_id, payload, .. } => SPacket::Publish { flags, topic: sb(topic), id: packet_id, payload: payload@ },
        VariableHeader::SubAck { packet_id, return_codes, .. } => SPacket::Suback { id: packet_id, codes: codes_view(return_codes@) },
        VariableHeader::PubAck { packet_id, .. } => SPacket::Ack { kind: 4, id: packet_id },
        VariableHeader::PubRec { packet_id, .. } => SPacket::Ack { kind: 5, id: packet_id },
        VariableHeader::PubRel { packet_id, .. } => SPacket::Ack { kind: 6, id: packet_id },
        VariableHeader::PubComp { packet_id, .. } => SPacket::Ack { kind: 7, id: packet_id },
        VariableHeader::UnsubAck { packet_id, .. } => SPacket::Ack { kind: 11, id: packet_id },
        VariableHeader::PingReq => SPacket::Bare { kind: 12 },
        VariableHeader::PingResp => SPacket::Bare { kind: 13 },
        VariableHeader::Disconnect { .. } => SPacket::Bare { kind: 14 },
        VariableHeader::Auth { .. } => SPacket::Bare { kind: 15 },
    }
}
/// the parsed value says exactly what the packet says; an empty client identifier is replaced by a fresh one
pub open spec fn represents(v: VariableHeader, flags: u8, p: SPacket) -> bool {
    match (v, p) {
        (VariableHeader::Connect { flags: f, keepalive, client_id, username, password, will_topic, will_message, protocol_version, .. },
         SPacket::Connect { flags: pf, keepalive: pk, client_id: pc, will_topic: pwt, will_message: pwm, username: pu, password: pp }) =>
            protocol_version is Four && f.0 == pf && keepalive == pk && ob(will_topic) == pwt && obytes(will_message) == pwm && ob(username) == pu
            && obytes(password) == pp && (if pc.len() == 0 { sb(client_id).len() > 0 } else { sb(client_id) == pc }),
        _ => !(v is Connect) && vh_view(v, flags) == p,
    }
}
/// what must hold of a header value for its encoding to mean what it says
pub open spec fn packable(v: VariableHeader) -> bool {
    match v {
        VariableHeader::Connect { flags: f, client_id, username, password, will_topic, will_message, protocol_version, .. } =>
            protocol_version is Four && sb(client_id).len() <= 65535
            && (will_topic is Some <==> c_will(f.0)) && (will_message is Some <==> c_will(f.0))
            && (username is Some <==> c_username(f.0)) && (password is Some <==> c_password(f.0))
            && (will_topic is Some ==> ob(will_topic)->0.len() <= 65535) && (will_message is Some ==> obytes(will_message)->0.len() <= 65535)
            && (username is Some ==> ob(username)->0.len() <= 65535) && (password is Some ==> obytes(password)->0.len() <= 65535),
        VariableHeader::Subscribe { tuples, .. } => forall|i: int| 0 <= i < tuples@.len() ==> sb((#[trigger] tuples@[i]).0).len() <= 65535,
        VariableHeader::Unsubscribe { tuples, .. } => forall|i: int| 0 <= i < tuples@.len() ==> sb(#[trigger] tuples@[i]).len() <= 65535,
        VariableHeader::Publish { topic, .. } => sb(topic).len() <= 65535,
        _ => true,
    }
}
pub open spec fn is_conv(e: MqttError) -> bool { e is Convertion }
pub open spec fn b1(x: bool, v: u8) -> u8 { if x { v } else { 0 } }
pub open spec fn pub_flags(dup: bool, qos: QosLevel, retain: bool) -> u8 { (0x30 + b1(dup, 8) + (qos as u8) * 2 + b1(retain, 1)) as u8 }
