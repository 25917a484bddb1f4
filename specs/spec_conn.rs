// What a connection must do, step by step: the state `Conn` is carried along by everything the connection
// does or sees (a specification of behaviour, from the standard and from the properties C15-C21, not from the code).

/// one thing the connection owes
pub enum Act {
    Nothing,
    /// announce the client to the core
    Reg { want: Seq<u8>, clean: bool },
    Pub(Msg),
    Sub { id: u16, filters: Seq<(Seq<u8>, u8)> },
    Unsub { id: u16, filters: Seq<Seq<u8>> },
    /// tell the core that the client left
    Gone,
    /// send exactly these bytes
    Write(Seq<u8>),
}
pub enum Asked { Reg, Sub(u16), Unsub(u16) }
pub enum Phase {
    /// owes these two, in this order
    Do(Act, Act),
    /// waits for the core's answer to its request
    Wait { reply: int, what: Asked },
    /// sends these bytes, then closes
    Last(Seq<u8>),
    /// closes; may say before that it refuses
    MayRefuse,
    /// closes
    End,
    /// did something that it must not do
    Bad,
}
pub enum Src { Turn, Packet, Core }
pub struct Conn {
    /// the bytes from the client of which no packet was taken yet, to the end of the stream
    pub rest: Seq<u8>,
    pub phase: Phase,
    /// the core accepted the CONNECT
    pub connected: bool,
    pub cid: Seq<u8>,
    /// the core was given the channel `me` to send to this client
    pub given: bool,
    pub me: int,
    /// QoS 2 messages handed over and not released
    pub received: Set<u16>,
    /// one and a half times the keep alive, in milliseconds; 0: none
    pub ka: int,
    /// what the timer was set to since the last packet
    pub armed: Option<int>,
    pub src: Src,
}
pub enum CEv {
    /// starts to wait for whatever comes next
    Turn,
    Took, NoMore, ReadErr { io: bool },
    FromCore { chan: int, what: Option<Out> },
    Fired, Cancelled,
    Cmd { c: Command, ok: bool },
    Answer { from: int, what: Option<Rep> },
    Armed(int),
    Wrote { b: Seq<u8>, ok: bool },
}
pub open spec fn level(q: u8) -> QosLevel { if q == 0 { QosLevel::AtMost } else if q == 1 { QosLevel::AtLeast } else { QosLevel::Exactly } }
pub open spec fn ack(kind: u8, id: u16) -> Act { Act::Write(encode(SPacket::Ack { kind, id })) }
pub open spec fn connack(flags: u8, code: u8) -> Seq<u8> { encode(SPacket::Connack { flags, code }) }
pub open spec fn start(stream: Seq<u8>) -> Conn {
    Conn { rest: stream, phase: Phase::Do(Act::Nothing, Act::Nothing), connected: false, cid: Seq::empty(), given: false, me: 0,
        received: Set::empty(), ka: 0, armed: None, src: Src::Core }
}
/// the packet at the start of the stream, once all of it is there
pub open spec fn whole(b: Seq<u8>) -> bool { frame(b) is Some && frame(b)->0 <= b.len() }
pub open spec fn head(b: Seq<u8>) -> Seq<u8> { b.take(frame(b)->0) }
pub open spec fn malformed_len(b: Seq<u8>) -> bool { b.len() >= 5 && dec_len(b.sk(1)) is TooLong }
/// [MQTT-3.1.0-1] [MQTT-3.1.0-2] [MQTT-3.3.4-1] [MQTT-4.3.3-2] [MQTT-3.6.4-1] [MQTT-3.8.4-1] [MQTT-3.10.4-4] [MQTT-3.12.4-1]
pub open spec fn got(s: Conn, p: SPacket) -> Conn {
    if !s.connected {
        match p {
            SPacket::Connect { flags, keepalive, client_id, .. } =>
                Conn { phase: Phase::Do(Act::Reg { want: client_id, clean: c_clean(flags) }, Act::Nothing), ka: keepalive * 1500, ..s },
            _ => Conn { phase: Phase::End, ..s },
        }
    } else {
        match p {
            SPacket::Connect { .. } => Conn { phase: Phase::MayRefuse, ..s },
            SPacket::Publish { flags, topic, id, payload } => {
                let q = qos_of(flags);
                let m = Act::Pub(Msg { topic, qos: level(q), payload });
                if q == 0 || id is None { Conn { phase: Phase::Do(m, Act::Nothing), ..s } }
                else if q == 1 { Conn { phase: Phase::Do(m, ack(4, id->0)), ..s } }
                else if s.received.contains(id->0) { Conn { phase: Phase::Do(ack(5, id->0), Act::Nothing), ..s } }
                else { Conn { phase: Phase::Do(m, ack(5, id->0)), received: s.received.insert(id->0), ..s } }
            },
            SPacket::Ack { kind, id } =>
                if kind == 4 || kind == 7 { Conn { phase: Phase::Do(Act::Nothing, Act::Nothing), ..s } }
                else if kind == 5 { Conn { phase: Phase::Do(ack(6, id), Act::Nothing), ..s } }
                else if kind == 6 { Conn { phase: Phase::Do(ack(7, id), Act::Nothing), received: s.received.remove(id), ..s } }
                else { Conn { phase: Phase::End, ..s } },
            SPacket::Subscribe { id, filters } => Conn { phase: Phase::Do(Act::Sub { id, filters }, Act::Nothing), ..s },
            SPacket::Unsubscribe { id, filters } => Conn { phase: Phase::Do(Act::Unsub { id, filters }, Act::Nothing), ..s },
            SPacket::Bare { kind } =>
                if kind == 12 { Conn { phase: Phase::Do(Act::Write(encode(SPacket::Bare { kind: 13 })), Act::Nothing), ..s } }
                else if kind == 14 { Conn { phase: Phase::Do(Act::Gone, Act::Nothing), ..s } }
                else { Conn { phase: Phase::End, ..s } },
            _ => Conn { phase: Phase::End, ..s },
        }
    }
}
pub open spec fn bad(s: Conn) -> Conn { Conn { phase: Phase::Bad, ..s } }
pub open spec fn fin(s: Conn) -> Conn { Conn { phase: Phase::End, ..s } }
pub open spec fn idle(s: Conn) -> bool { s.phase == Phase::Do(Act::Nothing, Act::Nothing) }
/// the timer runs with the client's time since the last packet [MQTT-3.1.2-24]
pub open spec fn timed(s: Conn) -> bool { s.connected && s.ka > 0 ==> s.armed == Some(s.ka) }
pub open spec fn took(s: Conn) -> Conn {
    if !whole(s.rest) { bad(s) } else {
        match decode(head(s.rest)) {
            Some((p, n)) => got(Conn { rest: s.rest.sk(n), armed: None, src: Src::Packet, ..s }, p),
            None => bad(s) }
    }
}
/// no packet can be made of what comes next
pub open spec fn read_failed(s: Conn, io: bool) -> Conn {
    if io { fin(s) }
    else if malformed_len(s.rest) { fin(s) }
    else if whole(s.rest) && decode(head(s.rest)) is None {
        if !s.connected && refused_level(head(s.rest)) { Conn { phase: Phase::Last(connack(0, 1)), ..s } }
        else if !s.connected && refused_client_id(head(s.rest)) { Conn { phase: Phase::Last(connack(0, 2)), ..s } }
        else { fin(s) }
    } else { bad(s) }
}
pub open spec fn left(s: Conn, c: Command) -> bool { match c { Command::DisconnectClient(id, ch) => sb(id) == s.cid && ch.chan() == s.me, _ => false } }
pub open spec fn asked_now(s: Conn, c: Command, ok: bool) -> Conn {
    match s.phase {
        Phase::Do(act, then) => match (act, c) {
            (Act::Reg { want, clean }, Command::RegisterClient { id, message_channel, clean_session, callback, .. }) =>
                if clean_session == clean && (if want.len() == 0 { sb(id).len() > 0 } else { sb(id) == want }) {
                    Conn { phase: if ok { Phase::Wait { reply: callback.chan(), what: Asked::Reg } } else { Phase::End }, cid: sb(id), given: true, me: message_channel.chan(), ..s }
                } else { bad(s) },
            (Act::Pub(m), Command::Publish { topic, qos, payload }) =>
                if m == (Msg { topic: sb(topic), qos, payload: payload@ }) { Conn { phase: if ok { Phase::Do(then, Act::Nothing) } else { Phase::End }, ..s } } else { bad(s) },
            (Act::Sub { id, filters }, Command::Subscribe { client, topics, callback }) =>
                if sb(client) == s.cid && filters_view(topics@) == filters {
                    Conn { phase: if ok { Phase::Wait { reply: callback.chan(), what: Asked::Sub(id) } } else { Phase::End }, ..s }
                } else { bad(s) },
            (Act::Unsub { id, filters }, Command::Unsubscribe { topics, cid, callback }) =>
                if sb(cid) == s.cid && topics_view(topics@) == filters {
                    Conn { phase: if ok { Phase::Wait { reply: callback.chan(), what: Asked::Unsub(id) } } else { Phase::End }, ..s }
                } else { bad(s) },
            (Act::Gone, _) => if left(s, c) { fin(s) } else { bad(s) },
            _ => bad(s),
        },
        // (a connection that ends may say so, as itself)
        Phase::End => if s.connected && left(s, c) { s } else { bad(s) },
        _ => bad(s),
    }
}
pub open spec fn answered(s: Conn, from: int, what: Option<Rep>) -> Conn {
    match s.phase {
        Phase::Wait { reply, what: q } => if reply != from { bad(s) } else {
            match (q, what) {
                (Asked::Reg, Some(Rep::Connected(present))) => Conn { phase: Phase::Do(Act::Write(connack(b1(present, 1), 0)), Act::Nothing), connected: true, ..s },
                (Asked::Sub(id), Some(Rep::Subscribed(codes))) => Conn { phase: Phase::Do(Act::Write(encode(SPacket::Suback { id, codes })), Act::Nothing), ..s },
                (Asked::Unsub(id), Some(Rep::Unsubscribed)) => Conn { phase: Phase::Do(ack(11, id), Act::Nothing), ..s },
                _ => fin(s),
            } },
        _ => bad(s),
    }
}
pub open spec fn wrote(s: Conn, b: Seq<u8>, ok: bool) -> Conn {
    match s.phase {
        Phase::Do(Act::Write(w), then) => if b == w { Conn { phase: if ok { Phase::Do(then, Act::Nothing) } else { Phase::End }, ..s } } else { bad(s) },
        Phase::Last(w) => if b == w { fin(s) } else { bad(s) },
        Phase::MayRefuse => if exists|code: u8| 1 <= code <= 5 && b == #[trigger] connack(0, code) { fin(s) } else { bad(s) },
        _ => bad(s),
    }
}
pub open spec fn step(s: Conn, e: CEv) -> Conn {
    match e {
        CEv::Turn => if idle(s) && timed(s) { Conn { src: Src::Turn, ..s } } else { bad(s) },
        CEv::Took => if idle(s) && s.src is Turn { took(s) } else { bad(s) },
        CEv::NoMore => if idle(s) && s.src is Turn && !whole(s.rest) { fin(s) } else { bad(s) },
        CEv::ReadErr { io } => if idle(s) && s.src is Turn { read_failed(s, io) } else { bad(s) },
        CEv::Fired => if idle(s) && s.src is Turn && (s.connected ==> s.ka > 0) { fin(s) } else { bad(s) },
        CEv::Cancelled => if idle(s) && s.src is Turn { fin(s) } else { bad(s) },
        CEv::FromCore { chan, what } => if !idle(s) { bad(s) } else {
            match what {
                Some(Out::Msg(b)) => if s.connected && chan == s.me { Conn { phase: Phase::Do(Act::Write(b), Act::Nothing), src: Src::Core, ..s } } else { bad(s) },
                Some(Out::Disc) => fin(s),
                None => Conn { src: Src::Core, ..s } } },
        CEv::Cmd { c, ok } => asked_now(s, c, ok),
        CEv::Answer { from, what } => answered(s, from, what),
        // only a packet from the client gives it more time
        CEv::Armed(ms) => if s.src is Packet && !(s.phase is Bad) { Conn { armed: Some(ms), ..s } } else { bad(s) },
        CEv::Wrote { b, ok } => wrote(s, b, ok),
    }
}
pub open spec fn fine(s: Conn, e: CEv) -> bool { !(step(s, e).phase is Bad) }
/// a connection may end here
pub open spec fn over(s: Conn) -> bool { s.phase is End || s.phase is MayRefuse }
