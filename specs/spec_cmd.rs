// What the connections and the core say to each other.
pub enum Out { Msg(Seq<u8>), Disc }
pub enum Rep { Connected(bool), Subscribed(Seq<u8>), Unsubscribed, Refused }
pub open spec fn out_of(e: ClientEvent) -> Out { match e { ClientEvent::Message(b) => Out::Msg(b@), ClientEvent::Disconnect => Out::Disc } }
/// the topics of the one SUBSCRIBE request that carries this reply channel (a reply channel is used once: it is moved into the request)
pub uninterp spec fn asked(reply: int) -> Seq<(Seq<u8>, u8)>;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct OneshotSender<T> { t: Vec<T> }
pub trait Reply: Sized {
    spec fn rep(self) -> Rep;
    spec fn permitted(self, to: int) -> bool;
}
impl<T> OneshotSender<T> { pub uninterp spec fn chan(&self) -> int; }
pub open spec fn code_for(f: Seq<u8>, q: u8) -> u8 {
    match address(f) { Some((lv, g)) if ok_filter(lv) => q, _ => 0x80 }
}
/// one code per requested filter, in order: the granted level of service, or 0x80 [MQTT-3.9.3-1]
pub open spec fn codes_answer(codes: Seq<u8>, topics: Seq<(Seq<u8>, u8)>) -> bool {
    codes.len() == topics.len() && forall|i: int| 0 <= i < codes.len() ==> #[trigger] codes[i] == code_for(topics[i].0, topics[i].1)
}
impl Reply for Result<bool, MqttError> {
    open spec fn rep(self) -> Rep { match self { Ok(b) => Rep::Connected(b), Err(_) => Rep::Refused } }
    open spec fn permitted(self, to: int) -> bool { true }
}
impl Reply for Result<Vec<SubackReturnCode>, MqttError> {
    open spec fn rep(self) -> Rep { match self { Ok(c) => Rep::Subscribed(codes_view(c@)), Err(_) => Rep::Refused } }
    open spec fn permitted(self, to: int) -> bool { match self { Ok(c) => codes_answer(codes_view(c@), asked(to)), Err(_) => true } }
}
impl Reply for Result<(), MqttError> {
    open spec fn rep(self) -> Rep { match self { Ok(_) => Rep::Unsubscribed, Err(_) => Rep::Refused } }
    open spec fn permitted(self, to: int) -> bool { true }
}
pub struct Msg { pub topic: Seq<u8>, pub qos: QosLevel, pub payload: Seq<u8> }
pub open spec fn msg_ok(m: Msg) -> bool {
    m.topic.len() <= 65535 && (4 + m.topic.len() + m.payload.len() <= MAX_REMLEN || (m.qos is AtMost && 2 + m.topic.len() + m.payload.len() <= MAX_REMLEN))
}
pub open spec fn cmd_ok(c: Command) -> bool {
    match c {
        Command::Publish { topic, qos, payload } => msg_ok(Msg { topic: sb(topic), qos, payload: payload@ }),
        Command::Subscribe { topics, callback, .. } => filters_view(topics@) == asked(callback.chan()),
        _ => true,
    }
}
