//! The codec against the standard.
use super::gen::*;
use super::oracle::*;
use super::Fail;
use crate::core::enums::ProtocalVersion;
use crate::error::MqttError;
use crate::packets::enums::{ConnectReturnCode, QosLevel, SubackReturnCode};
use crate::packets::{Packet, VariableHeader};
use bytes::Bytes;

fn o(x: &Option<String>) -> Option<Vec<u8>> { x.as_ref().map(|s| s.as_bytes().to_vec()) }
fn ob(x: &Option<Bytes>) -> Option<Vec<u8>> { x.as_ref().map(|s| s.to_vec()) }
pub fn view(p: &Packet, first: u8) -> P {
    match &p.variable {
        VariableHeader::Connect { keepalive, client_id, username, password, will_topic, will_message, flags, .. } => {
            let mut f = 0u8;
            if flags.clean_session() { f |= 2 }
            if flags.will() { f |= 4 }
            f |= flags.will_qos().map(|q| q as u8).unwrap_or(3) << 3;
            if flags.will_retain() { f |= 32 }
            if flags.has_password() { f |= 64 }
            if flags.has_username() { f |= 128 }
            P::Connect { flags: f, ka: *keepalive, cid: client_id.as_bytes().to_vec(), wt: o(will_topic), wm: ob(will_message), user: o(username), pass: ob(password) }
        }
        VariableHeader::ConnAck { acknowledge_flags, return_code, .. } => P::Connack { flags: acknowledge_flags.as_byte(), code: *return_code as u8 },
        VariableHeader::Subscribe { packet_id, tuples, .. } => P::Subscribe { id: *packet_id, filters: tuples.iter().map(|(f, q)| (f.as_bytes().to_vec(), *q as u8)).collect() },
        VariableHeader::Unsubscribe { packet_id, tuples, .. } => P::Unsubscribe { id: *packet_id, filters: tuples.iter().map(|f| f.as_bytes().to_vec()).collect() },
        VariableHeader::Publish { topic, packet_id, payload, .. } => {
            let f = &p.fixed;
            let q = f.get_qos().map(|q| q as u8).unwrap_or(3);
            let flags = 0x30 | (f.get_dup() as u8) << 3 | q << 1 | f.get_retain() as u8;
            P::Publish { flags, topic: topic.as_bytes().to_vec(), id: *packet_id, payload: payload.to_vec() }
        }
        VariableHeader::SubAck { packet_id, return_codes, .. } => P::Suback { id: *packet_id, codes: return_codes.iter().map(|c| c.to_u8()).collect() },
        VariableHeader::PubAck { packet_id, .. } => P::Ack { kind: 4, id: *packet_id },
        VariableHeader::PubRec { packet_id, .. } => P::Ack { kind: 5, id: *packet_id },
        VariableHeader::PubRel { packet_id, .. } => P::Ack { kind: 6, id: *packet_id },
        VariableHeader::PubComp { packet_id, .. } => P::Ack { kind: 7, id: *packet_id },
        VariableHeader::UnsubAck { packet_id, .. } => P::Ack { kind: 11, id: *packet_id },
        VariableHeader::PingReq => P::Bare { kind: 12 },
        VariableHeader::PingResp => P::Bare { kind: 13 },
        VariableHeader::Disconnect { .. } => P::Bare { kind: 14 },
        VariableHeader::Auth { .. } => P::Bare { kind: 15 + (first & 0) },
    }
}
fn type_tag(b: &[u8]) -> &'static str {
    match b.first().map(|x| x >> 4) { Some(1) => "C06", Some(3) => "C04", Some(8) | Some(10) => "C05", _ => "C07" }
}
fn short(p: &dyn std::fmt::Debug) -> String { let s = format!("{:?}", p); if s.len() > 400 { format!("{}..", s.chars().take(400).collect::<String>()) } else { s } }
pub fn unpack(b: &[u8], f: &mut Fail) {
    let t = type_tag(b);
    let want = decode(b);
    let got = std::panic::catch_unwind(|| Packet::unpack(b, ProtocalVersion::Unknown));
    let got = match got { Ok(g) => g, Err(_) => { f.add(&["C02", t], format!("decoding panics, expected {}", short(&want))); return; } };
    match (&want, got) {
        (Ok(Some((p, n))), Ok((g, m))) => {
            let v = view(&g, b[0]);
            let same = match (&v, p) {
                (P::Connect { cid: c, .. }, P::Connect { cid, .. }) if cid.is_empty() => {
                    let mut q = p.clone();
                    if let P::Connect { cid, .. } = &mut q { *cid = c.clone(); }
                    !c.is_empty() && v == q
                }
                _ => v == *p,
            };
            if !same { f.add(&[t, "C09"], format!("decoded {}, expected {}", short(&v), short(p))); }
            if *n != m { f.add(&["C03"], format!("consumed {} bytes, the packet has {}", m, n)); }
            let cid_made = matches!(p, P::Connect { cid, .. } if cid.is_empty());
            if same && !cid_made {
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.pack())) {
                    Ok(e) => if e[..] != encode(p)[..] { f.add(&["C09", "C08"], format!("encodes back to {}, expected {}", hex(&e), hex(&encode(p)))); },
                    Err(_) => f.add(&["C09", "C08"], "encoding panics".into()),
                }
            }
            // bytes that follow belong to the next packet
            if b.len() == *n {
                let mut more = b.to_vec();
                more.extend([0x30, 0x05, 0xff]);
                match std::panic::catch_unwind(|| Packet::unpack(&more, ProtocalVersion::Unknown)) {
                    Ok(Ok((g2, m2))) if m2 == *n && (view(&g2, b[0]) == v || cid_made) => {}
                    _ => f.add(&["C03"], "bytes after the packet change how it is read".into()),
                }
            }
        }
        (Ok(Some((p, _))), Err(e)) => f.add(&[t, "C09"], format!("refused with {:?}, expected {}", e, short(p))),
        (Ok(None), Ok((g, m))) => f.add(&["C03", "C07", t], format!("incomplete, but decoded as {} of {} bytes", short(&g.variable), m)),
        (Err(_), Ok((g, _))) => f.add(&["C07", t], format!("malformed, but decoded as {}", short(&g.variable))),
        (w, Err(e)) => {
            let lv = matches!(e, MqttError::UnacceptableProtocolLevel);
            let ci = matches!(e, MqttError::ClientIdentifierRejected);
            // only a CONNECT of another level, or without client identifier and clean session, is refused with a return code
            if lv != (*w == Err(Bad::Level)) || ci != (*w == Err(Bad::ClientId)) { f.add(&["C06"], format!("refused with {:?}, expected {:?}", e, w)); }
        }
    }
    // framing only looks at the fixed header
    if let Ok(g) = std::panic::catch_unwind(|| Packet::complete_len(b)) {
        let whole = frame(b);
        match g {
            Ok(Some(n)) => if whole != Some(n) || b.len() < n { f.add(&["C01", "C03"], format!("complete packet of {} bytes reported, expected {:?}", n, whole)); },
            Ok(None) => if matches!(whole, Some(n) if n <= b.len()) { f.add(&["C01", "C03"], format!("packet of {:?} bytes reported incomplete", whole)); },
            Err(_) => if matches!(want, Ok(_)) { if whole.is_some() && ok_first(b[0]) { f.add(&["C01", "C03"], "header refused".into()); } },
        }
    } else { f.add(&["C02"], "framing panics".into()); }
}
fn qos(n: u8) -> QosLevel { match n { 0 => QosLevel::AtMost, 1 => QosLevel::AtLeast, _ => QosLevel::Exactly } }
fn eq(f: &mut Fail, tags: &[&str], what: &str, got: std::thread::Result<Bytes>, want: Vec<u8>) {
    match got {
        Ok(g) => if g[..] != want[..] {
            let at = g.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(g.len().min(want.len()));
            let cut = |x: &[u8]| if x.len() > 64 { format!("{}.. ({} bytes)", hex(&x[..64]), x.len()) } else { hex(x) };
            f.add(tags, format!("{} encodes as {}, expected {} (first difference at {})", what, cut(&g), cut(&want), at));
        },
        Err(_) => f.add(tags, format!("{} panics", what)),
    }
}
pub fn exec(w: &[&str], f: &mut Fail) {
    let n = |i: usize| -> usize { w[i].parse().unwrap() };
    match w[0] {
        "unpack" => unpack(&unhex(w[1]), f),
        "len" => {
            let v = n(1);
            let mut h = vec![0x30u8];
            h.extend(enc_len(v));
            let k = h.len();
            // the header alone: how much is needed
            match std::panic::catch_unwind(|| Packet::complete_len(&h)) {
                Ok(Ok(g)) => if g != (if v == 0 { Some(k) } else { None }) { f.add(&["C01"], format!("length {}: complete_len {:?}", v, g)); },
                _ => f.add(&["C01"], format!("length {}: header refused", v)),
            }
            for cut in 0..k { if let Ok(None) = Packet::complete_len(&h[..cut]) {} else { f.add(&["C01"], format!("length {}: first {} header bytes are not taken as incomplete", v, cut)); } }
            if v <= 3_000_000 {
                h.resize(k + v, 0x61);
                match Packet::complete_len(&h) { Ok(Some(m)) if m == k + v => {}, x => f.add(&["C01"], format!("length {}: packet of {} bytes taken as {:?}", v, k + v, x.ok())) }
                if v > 0 { if let Ok(Some(_)) = Packet::complete_len(&h[..k + v - 1]) { f.add(&["C01"], format!("length {}: complete one byte too early", v)); } }
                if v >= 3 { let p = Bytes::from(vec![0x62u8; v - 3]); let mut want = st(b"t"); want.extend(&p[..]); eq(f, &["C01", "C08"], "PUBLISH", std::panic::catch_unwind(|| Packet::make_publish(false, QosLevel::AtMost, false, "t".into(), None, p)), framed(0x30, &want)); }
            }
        }
        // a PUBLISH whose payload fills the given remaining length
        "bigpub" => {
            let v = n(1);
            let p = P::Publish { flags: 0x30, topic: b"t".to_vec(), id: None, payload: (0..v - 3).map(|i| (i * 7 + i / 256) as u8).collect() };
            let b = encode(&p);
            unpack(&b, f);
            unpack(&b[..b.len() - 1], f);
            if let P::Publish { payload, .. } = p { eq(f, &["C08"], "PUBLISH", std::panic::catch_unwind(|| Packet::make_publish(false, QosLevel::AtMost, false, "t".into(), None, Bytes::from(payload))), b); }
        }
        "badlen" => {
            let h = unhex(w[1]);
            match std::panic::catch_unwind(|| Packet::complete_len(&h)) { Ok(Err(_)) => {}, Ok(Ok(None)) if h.len() < 6 => {}, x => f.add(&["C01", "C07"], format!("length field of five bytes taken as {:?}", x.map(|r| r.ok()))) }
        }
        "pub" => {
            let (d, q, rt, id) = (n(1), n(2) as u8, n(3), n(5) as u16);
            let (topic, payload) = (unhex(w[4]), unhex(w[6]));
            let p = P::Publish { flags: 0x30 | (d as u8) << 3 | q << 1 | rt as u8, topic: topic.clone(), id: if id == 0 { None } else { Some(id) }, payload: payload.clone() };
            let t = String::from_utf8(topic).unwrap();
            let want = encode(&p);
            let got = std::panic::catch_unwind(|| Packet::make_publish(d == 1, qos(q), rt == 1, t, if id == 0 { None } else { Some(id) }, Bytes::from(payload)));
            eq(f, &["C08"], "PUBLISH", got, want.clone());
            unpack(&want, f);
        }
        "ack" => {
            let (k, id) = (n(1) as u8, n(2) as u16);
            let want = encode(&P::Ack { kind: k, id });
            let got = std::panic::catch_unwind(|| match k { 4 => Packet::make_puback(id), 5 => Packet::make_pubrec(id), 6 => Packet::make_pubrel(id), 7 => Packet::make_pubcomp(id), _ => Packet::make_unsuback(id) });
            eq(f, &["C08"], "acknowledgement", got, want);
        }
        "pong" => eq(f, &["C08"], "PINGRESP", std::panic::catch_unwind(Packet::make_ping_resp), vec![0xD0, 0]),
        "suback" => {
            let codes = unhex(w[2]);
            let id = n(1) as u16;
            let rc = codes.iter().map(|c| match c { 0 => SubackReturnCode::SuccessQosZero, 1 => SubackReturnCode::SuccessQosOne, 2 => SubackReturnCode::SuccessQosTwo, _ => SubackReturnCode::Failure }).collect();
            eq(f, &["C08", "C13"], "SUBACK", std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Packet::make_suback(id, rc))), encode(&P::Suback { id, codes }));
        }
        "connack" => {
            let (c, sp) = (n(1) as u8, n(2));
            let rc = match c { 0 => ConnectReturnCode::Accepted, 1 => ConnectReturnCode::V4UnacceptableProtocal, _ => ConnectReturnCode::V4IdentifierRejected };
            eq(f, &["C08"], "CONNACK", std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Packet::make_connack(rc, sp == 1))), encode(&P::Connack { flags: sp as u8, code: c }));
        }
        x => panic!("unknown case {}", x),
    }
}
/// fixed cases: small values exhaustively
pub fn fixed(prop: &str) -> Vec<String> {
    let mut v = vec![];
    // every size of the length field
    if !matches!(prop, "C05" | "C06") { for n in [127, 128, 16383, 16384, 2097151, 2097152, 2097153] { v.push(format!("bigpub {}", n)); } }
    // a length field longer than it has to be
    if matches!(prop, "C01" | "C03" | "C20" | "C04") { for h in ["c08000", "c0808000", "c080808000", "308500000174aabb", "30858000000174aabb", "3085808000000174aabb", "c0808001"] { for more in ["", "c000", "30050001"] { v.push(format!("unpack {}{}", h, more)); } } }
    match prop {
        "C01" => {
            for n in (0..1000).chain([16382, 16383, 16384, 16385, 65535, 2097150, 2097151, 2097152, 2097153, 268435454, 268435455]) { v.push(format!("len {}", n)); }
            for h in ["3080808080", "30ffffffff01", "30ffffffff", "308080808001", "10ff80ff8000"] { v.push(format!("badlen {}", h)); }
        }
        "C08" => {
            for k in [4, 5, 6, 7, 11] { for id in [1, 2, 255, 256, 0x1234, 65535] { v.push(format!("ack {} {}", k, id)); } }
            v.push("pong".into());
            for c in 0..3 { for sp in 0..2 { v.push(format!("connack {} {}", c, sp)); } }
        }
        "C06" => for f in 0..256u32 {
            // every flag byte, with just the fields it announces
            let f = f as u8;
            let mut b = st(b"MQTT"); b.extend([4, f, 0, 9]); b.extend(st(b"c"));
            if f & 4 != 0 { b.extend(st(b"w")); b.extend(st(b"\xff\x00")); }
            if f & 128 != 0 { b.extend(st(b"u")); }
            if f & 64 != 0 { b.extend(st(b"\xff")); }
            v.push(format!("unpack {}", hex(&framed(0x10, &b))));
            b[4 + 2] = f; b[4 + 3] = 2;
            v.push(format!("unpack {}", hex(&framed(0x10, &b))));
        },
        "C07" | "C02" | "C03" => for a in 0..256usize { v.push(format!("unpack {:02x}", a)); for b in 0..256usize { v.push(format!("unpack {:02x}{:02x}", a, b)); if b < 4 { for c in (0..256).step_by(5) { v.push(format!("unpack {:02x}{:02x}{:02x}0000{:02x}", a, b, c, c)); } } } },
        _ => {}
    }
    v
}
pub fn random(prop: &str, r: &mut Rng) -> String {
    let kinds: &[u8] = match prop { "C04" => &[3], "C05" => &[8, 10], "C06" => &[1], _ => &[1, 2, 3, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11, 12, 13, 14] };
    match prop {
        "C01" => format!("len {}", match r.below(4) { 0 => r.below(128), 1 => r.below(16384), 2 => r.below(100_000), _ => r.below(268435456) }),
        "C08" => match r.below(4) {
            0 => format!("ack {} {}", r.pick(&[4, 5, 6, 7, 11]), id(r)),
            1 => format!("suback {} {}", id(r), { let n = r.below(200); hex(&(0..n).map(|_| *r.pick(&[0u8, 1, 2, 0x80])).collect::<Vec<_>>()) }),
            _ => { let p = packet(r, 3); if let P::Publish { flags, topic, id, payload } = p { format!("pub {} {} {} {} {} {}", flags >> 3 & 1, flags >> 1 & 3, flags & 1, hex(&topic), id.unwrap_or(0), hex(&payload)) } else { unreachable!() } }
        },
        "C09" => { let k = *r.pick(kinds); format!("unpack {}", hex(&encode(&packet(r, k)))) }
        "C02" if r.chance(4) => { let n = r.below(24); let mut b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect(); if n > 1 && r.chance(2) { b[1] = (n - 2) as u8; } format!("unpack {}", hex(&b)) }
        _ => {
            let k = *r.pick(kinds);
            let mut b = encode(&packet(r, k));
            if !r.chance(3) { let times = 1 + r.below(2); for _ in 0..times { if b.len() > 1 { b = mutate(r, &b); } } }
            if prop == "C03" && r.chance(3) { let k2 = *r.pick(kinds); b.extend(encode(&packet(r, k2))); }
            format!("unpack {}", hex(&b))
        }
    }
}
