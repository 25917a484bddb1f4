//! One connection: its bytes in any pieces, the commands it gives, the bytes it sends, its timers.
use super::gen::*;
use super::oracle::*;
use super::Fail;
use crate::core::enums::{ClientEvent, Command};
use crate::error::MqttError;
use crate::handler::client_handler;
use crate::packets::enums::SubackReturnCode;
use bytes::Bytes;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::sync::mpsc;

#[derive(Clone, Debug, PartialEq, Eq)]
enum Cmd {
    Register { cid: Vec<u8>, clean: bool },
    Subscribe { cid: Vec<u8>, filters: Vec<(Vec<u8>, u8)> },
    Unsubscribe { cid: Vec<u8>, filters: Vec<Vec<u8>> },
    Publish { topic: Vec<u8>, qos: u8, payload: Vec<u8> },
    Disconnect { cid: Vec<u8>, own: bool },
    Exit,
}
#[derive(Clone, Copy, PartialEq)]
enum Policy { Answer, Refuse, Drop, Gone }

struct Want { cmds: Vec<Cmd>, out: Vec<Vec<u8>>, closed: bool, any_cid: bool, why: &'static str, alt: Vec<Vec<Vec<u8>>> }

/// what the standard asks of the server side of a connection
struct ConnModel { buf: Vec<u8>, connected: bool, cid: Vec<u8>, received: std::collections::BTreeSet<u16>, ka: u64, last: u64, now: u64, closed: bool, sp: bool }
fn answer_codes(f: &[(Vec<u8>, u8)]) -> Vec<u8> { f.iter().map(|(f, q)| if valid_filter(std::str::from_utf8(f).unwrap()) { *q } else { 0x80 }).collect() }
impl ConnModel {
    fn close(&mut self, w: &mut Want, why: &'static str) { self.closed = true; w.closed = true; w.why = why; }
    fn input(&mut self, b: &[u8], pol: Policy, w: &mut Want) {
        if self.closed { return; }
        self.buf.extend(b);
        while !self.closed {
            let (p, n) = match decode(&self.buf) {
                Ok(None) => {
                    return;
                }
                // the fifth byte may still be awaited
                Err(_) if self.buf.len() == 5 && matches!(dec_len(&self.buf[1..]), Len::TooLong) => return,
                Err(bad) => {
                    if !self.connected && bad == Bad::Level { w.out.push(vec![0x20, 2, 0, 1]); }
                    if !self.connected && bad == Bad::ClientId { w.out.push(vec![0x20, 2, 0, 2]); }
                    self.close(w, "a malformed packet ends the connection");
                    return;
                }
                Ok(Some(x)) => x,
            };
            self.buf.drain(..n);
            if !self.connected && !matches!(p, P::Connect { .. }) { self.close(w, "the first packet is not CONNECT"); return; }
            self.last = self.now;
            match p {
                P::Connect { flags, ka, cid, .. } => {
                    if self.connected { w.alt.push(vec![]); w.alt.push(vec![vec![0x20, 2, 0, 1]]); self.close(w, "a second CONNECT"); return; }
                    if pol == Policy::Gone { self.close(w, "the broker is gone"); return; }
                    if cid.is_empty() { w.any_cid = true; }
                    w.cmds.push(Cmd::Register { cid: cid.clone(), clean: flags & 2 != 0 });
                    if pol != Policy::Answer { self.close(w, "the broker refuses the registration"); return; }
                    self.connected = true;
                    self.cid = cid;
                    self.ka = ka as u64 * 1500;
                    w.out.push(vec![0x20, 2, self.sp as u8, 0]);
                }
                P::Publish { flags, topic, id, payload } => {
                    let q = flags >> 1 & 3;
                    if q < 2 || self.received.insert(id.unwrap()) {
                        if pol == Policy::Gone { self.close(w, "the broker is gone"); return; }
                        w.cmds.push(Cmd::Publish { topic, qos: q, payload });
                    }
                    if q > 0 { w.out.push(encode(&P::Ack { kind: 3 + q, id: id.unwrap() })); }
                }
                P::Subscribe { id, filters } => {
                    if pol == Policy::Gone { self.close(w, "the broker is gone"); return; }
                    let codes = answer_codes(&filters);
                    w.cmds.push(Cmd::Subscribe { cid: self.cid.clone(), filters });
                    if pol != Policy::Answer { self.close(w, "the broker refuses"); return; }
                    w.out.push(encode(&P::Suback { id, codes }));
                }
                P::Unsubscribe { id, filters } => {
                    if pol == Policy::Gone { self.close(w, "the broker is gone"); return; }
                    w.cmds.push(Cmd::Unsubscribe { cid: self.cid.clone(), filters });
                    if pol != Policy::Answer { self.close(w, "the broker refuses"); return; }
                    w.out.push(encode(&P::Ack { kind: 11, id }));
                }
                P::Ack { kind: 5, id } => w.out.push(encode(&P::Ack { kind: 6, id })),
                P::Ack { kind: 6, id } => { self.received.remove(&id); w.out.push(encode(&P::Ack { kind: 7, id })); }
                P::Ack { kind: 4, .. } | P::Ack { kind: 7, .. } => {}
                P::Bare { kind: 12 } => w.out.push(vec![0xD0, 0]),
                P::Bare { kind: 14 } => {
                    if pol != Policy::Gone { w.cmds.push(Cmd::Disconnect { cid: self.cid.clone(), own: true }); }
                    self.close(w, "DISCONNECT");
                }
                _ => self.close(w, "a packet only a server sends"),
            }
        }
    }
}
/// is `got` the packets of `a` and of `b`, each in order, merged in some way
fn merges(got: &[u8], a: &[Vec<u8>], b: &[Vec<u8>]) -> bool {
    let mut states: std::collections::BTreeSet<(usize, usize)> = [(0usize, 0usize)].into_iter().collect();
    let (sa, sb): (Vec<usize>, Vec<usize>) = (sums(a), sums(b));
    loop {
        let mut next = std::collections::BTreeSet::new();
        for (i, j) in &states {
            let at = sa[*i] + sb[*j];
            if *i == a.len() && *j == b.len() { return at == got.len(); }
            if *i < a.len() && got[at.min(got.len())..].starts_with(&a[*i]) { next.insert((i + 1, *j)); }
            if *j < b.len() && got[at.min(got.len())..].starts_with(&b[*j]) { next.insert((*i, j + 1)); }
        }
        if next.is_empty() { return false; }
        states = next;
    }
}
fn sums(a: &[Vec<u8>]) -> Vec<usize> { let mut v = vec![0]; for x in a { v.push(v[v.len() - 1] + x.len()); } v }
async fn settle() { for _ in 0..400 { tokio::task::yield_now().await; } }

async fn script(ops: &str, f: &mut Fail) {
    let (mut far_in, near_in) = tokio::io::duplex(1 << 22);
    // the writing side takes few bytes at a time
    let (near_out, mut far_out) = tokio::io::duplex(if ops.contains("narrow") { 7 } else { 1 << 16 });
    let out: Arc<Mutex<Vec<u8>>> = Default::default();
    let out2 = out.clone();
    let hold = Arc::new(Mutex::new(false));
    let hold2 = hold.clone();
    let reader = tokio::spawn(async move {
        let mut t = vec![0u8; 4096];
        loop { if !*hold2.lock().unwrap() { break; } tokio::task::yield_now().await; }
        while let Ok(n) = far_out.read(&mut t).await { if n == 0 { break; } out2.lock().unwrap().extend(&t[..n]); loop { if !*hold2.lock().unwrap() { break; } tokio::task::yield_now().await; } }
    });
    // (the core reads only when it gets its turn: a full channel is common)
    let (ctx, mut crx) = mpsc::channel::<Command>(1);
    let policy = Arc::new(Mutex::new(Policy::Answer));
    let cmds: Arc<Mutex<Vec<Cmd>>> = Default::default();
    let chan: Arc<Mutex<Option<mpsc::Sender<ClientEvent>>>> = Default::default();
    let sp = ops.contains("present");
    let (pol2, cmds2, chan2) = (policy.clone(), cmds.clone(), chan.clone());
    let broker = tokio::spawn(async move {
        loop {
            if *pol2.lock().unwrap() == Policy::Gone { crx.close(); return; }
            let c = match crx.try_recv() { Ok(c) => c, Err(mpsc::error::TryRecvError::Disconnected) => return, Err(_) => { tokio::task::yield_now().await; continue } };
            let pol = *pol2.lock().unwrap();
            let no = || Err(MqttError::Unknown);
            match c {
                Command::RegisterClient { id, message_channel, clean_session, callback, .. } => {
                    cmds2.lock().unwrap().push(Cmd::Register { cid: id.into_bytes(), clean: clean_session });
                    *chan2.lock().unwrap() = Some(message_channel);
                    match pol { Policy::Answer => { let _ = callback.send(Ok(sp)); } Policy::Refuse => { let _ = callback.send(no()); } _ => {} }
                }
                Command::Subscribe { client, topics, callback } => {
                    let filters: Vec<(Vec<u8>, u8)> = topics.into_iter().map(|(t, q)| (t.into_bytes(), q as u8)).collect();
                    let codes: Vec<u8> = answer_codes(&filters);
                    cmds2.lock().unwrap().push(Cmd::Subscribe { cid: client.into_bytes(), filters });
                    let codes = codes.iter().map(|c| match c { 0 => SubackReturnCode::SuccessQosZero, 1 => SubackReturnCode::SuccessQosOne, 2 => SubackReturnCode::SuccessQosTwo, _ => SubackReturnCode::Failure }).collect();
                    match pol { Policy::Answer => { let _ = callback.send(Ok(codes)); } Policy::Refuse => { let _ = callback.send(Err(MqttError::Unknown)); } _ => {} }
                }
                Command::Unsubscribe { topics, cid, callback } => {
                    cmds2.lock().unwrap().push(Cmd::Unsubscribe { cid: cid.into_bytes(), filters: topics.into_iter().map(|t| t.into_bytes()).collect() });
                    match pol { Policy::Answer => { let _ = callback.send(Ok(())); } Policy::Refuse => { let _ = callback.send(Err(MqttError::Unknown)); } _ => {} }
                }
                Command::Publish { topic, qos, payload } => cmds2.lock().unwrap().push(Cmd::Publish { topic: topic.into_bytes(), qos: qos as u8, payload: payload.to_vec() }),
                Command::DisconnectClient(cid, ch) => {
                    let own = chan2.lock().unwrap().as_ref().map_or(false, |c| c.same_channel(&ch));
                    cmds2.lock().unwrap().push(Cmd::Disconnect { cid: cid.into_bytes(), own });
                }
                Command::Exit => cmds2.lock().unwrap().push(Cmd::Exit),
            }
        }
    });
    let token = tokio_util::sync::CancellationToken::new();
    let tok2 = token.clone();
    let mut handler = tokio::spawn(async move { let _ = client_handler(near_in, near_out, ctx, tok2).await; });
    let mut m = ConnModel { buf: vec![], connected: false, cid: vec![], received: Default::default(), ka: 60_000, last: 0, now: 0, closed: false, sp };
    settle().await;
    let mut ended = false;
    for op in ops.split(';') {
        let w: Vec<&str> = op.split(',').collect();
        let mut want = Want { cmds: vec![], out: vec![], closed: false, any_cid: false, why: "", alt: vec![] };
        let mut tags: Vec<&str> = vec![];
        let before = m.connected;
        match w[0] {
            // bytes, in as many pieces as given
            "b" | "pieces" => {
                let pol = *policy.lock().unwrap();
                for piece in &w[1..] {
                    let b = unhex(piece);
                    m.input(&b, pol, &mut want);
                    let _ = far_in.write_all(&b).await;
                    settle().await;
                }
                if w.len() > 2 { tags.push("C20"); }
            }
            // a message of the broker for this client
            "m" => {
                if before {
                    let b = unhex(w[1]);
                    if !m.closed { want.out.push(b.clone()); }
                    let c = chan.lock().unwrap().clone();
                    if let Some(c) = c { let _ = c.try_send(ClientEvent::Message(Bytes::from(b))); }
                    tags.push("C21");
                }
            }
            "mm" => {
                // many at once
                let c = chan.lock().unwrap().clone();
                if let (true, Some(c)) = (before, c) {
                    for i in 0..w[2].parse::<usize>().unwrap() { let mut b = unhex(w[1]); let l = b.len(); b[l - 1] = i as u8; if !m.closed { want.out.push(b.clone()); } let _ = c.try_send(ClientEvent::Message(Bytes::from(b))); }
                    tags.push("C21");
                }
            }
            // bytes and messages at the same time, the client reading late
            "race" => {
                let pol = *policy.lock().unwrap();
                let mut mine = Want { cmds: vec![], out: vec![], closed: false, any_cid: false, why: "", alt: vec![] };
                let c = chan.lock().unwrap().clone();
                for item in &w[1..] {
                    let b = if item.len() > 1 { unhex(&item[1..]) } else { vec![] };
                    match &item[..1] {
                        "h" => *hold.lock().unwrap() = true,
                        "y" => settle().await,
                        "b" => { m.input(&b, pol, &mut mine); let _ = far_in.write_all(&b).await; }
                        "m" => if let (true, Some(c)) = (before, &c) { want.out.push(b.clone()); let _ = c.try_send(ClientEvent::Message(Bytes::from(b))); }
                        "k" => if let (true, Some(c)) = (before, &c) { let _ = c.try_send(ClientEvent::Disconnect); m.close(&mut want, "taken over"); }
                        _ => panic!("unknown item"),
                    }
                }
                *hold.lock().unwrap() = false;
                for _ in 0..8 { settle().await; }
                want.cmds = mine.cmds;
                let got = out.lock().unwrap().clone();
                // the two streams may be merged in any way, packet by packet
                if mine.closed || merges(&got, &mine.out, &want.out) { want.out = vec![got]; } else { want.out.extend(mine.out); }
                tags.push("C21");
                if w.iter().any(|i| i.starts_with('k')) { tags.push("C15"); }
            }
            // a PUBLISH of the given remaining length, in large pieces
            "bigpub" => {
                let pol = *policy.lock().unwrap();
                let b = encode(&P::Publish { flags: 0x30, topic: b"t".to_vec(), id: None, payload: vec![0x61; w[1].parse::<usize>().unwrap() - 3] });
                for piece in b.chunks(1 << 20) { m.input(piece, pol, &mut want); let _ = far_in.write_all(piece).await; for _ in 0..4 { settle().await; } }
                tags.push("C20");
            }
            "kick" => {
                let c = chan.lock().unwrap().clone();
                if let (true, Some(c)) = (before, c) { let _ = c.try_send(ClientEvent::Disconnect); if !m.closed { m.close(&mut want, "taken over"); } tags.push("C15"); }
            }
            "stop" => { token.cancel(); if !m.closed { m.close(&mut want, "shutdown"); } }
            "eof" => { let _ = far_in.shutdown().await; if !m.closed { m.close(&mut want, "end of the stream"); } tags.push("C20"); }
            "t" => {
                let ms: u64 = w[1].parse().unwrap();
                m.now += ms;
                if m.ka != 0 && m.now >= m.last + m.ka && !m.closed { m.close(&mut want, "keep alive ran out"); }
                tokio::time::advance(Duration::from_millis(ms)).await;
                tags.push("C19");
            }
            "policy" => { *policy.lock().unwrap() = match w[1] { "refuse" => Policy::Refuse, "drop" => Policy::Drop, "gone" => Policy::Gone, _ => Policy::Answer }; }
            "narrow" | "present" => {}
            x => panic!("unknown op {}", x),
        }
        settle().await;
        if !ended && handler.is_finished() {
            ended = true;
            if (&mut handler).await.is_err() { f.add(&["C02", "C16", "C17", "C18", "C20", "C21"], format!("{}: the connection's task panics", op)); }
            settle().await;
        }
        let got: Vec<u8> = std::mem::take(&mut *out.lock().unwrap());
        let gcmds: Vec<Cmd> = std::mem::take(&mut *cmds.lock().unwrap());
        let mut wcmds = want.cmds.clone();
        if want.any_cid {
            // a fresh client identifier
            for (a, b) in wcmds.iter_mut().zip(&gcmds) { if let (Cmd::Register { cid, .. }, Cmd::Register { cid: g, .. }) = (a, b) { if cid.is_empty() && !g.is_empty() { *cid = g.clone(); m.cid = g.clone(); } } }
            let n = m.cid.clone();
            for c in wcmds.iter_mut().skip(1) { match c { Cmd::Subscribe { cid, .. } | Cmd::Unsubscribe { cid, .. } | Cmd::Disconnect { cid, .. } if cid.is_empty() => *cid = n.clone(), _ => {} } }
        }
        let extra = if tags.contains(&"C20") { Some("C20") } else { None };
        if gcmds != wcmds {
            let mut t: Vec<&str> = extra.into_iter().collect();
            for c in wcmds.iter().chain(&gcmds) {
                t.push(match c { Cmd::Publish { .. } => "C18", Cmd::Register { .. } => "C16", Cmd::Disconnect { .. } => "C15", _ => "C17" });
            }
            if !before { t.push("C16"); }
            f.add(&t, format!("{}: the broker was asked {:?}, expected {:?} ({})", cut(op), gcmds, wcmds, want.why));
        }
        let wout: Vec<u8> = want.out.concat();
        let alts: Vec<Vec<u8>> = want.alt.iter().map(|a| { let mut x = wout.clone(); x.extend(a.concat()); x }).collect();
        if got != wout && !alts.contains(&got) {
            let mut t: Vec<&str> = extra.into_iter().collect();
            if tags.contains(&"C21") { t.push("C21"); }
            let acks = |b: &[u8]| { let mut v: Vec<&str> = vec![]; let mut b = b; while let Some(n) = frame(b) { if n > b.len() { v.push("C21"); break; } v.push(match b[0] >> 4 { 2 => "C16", 3 => "C21", _ => "C17" }); b = &b[n..]; } v };
            t.extend(acks(&wout));
            t.extend(acks(&got));
            if !before { t.extend(["C16", "C06"]); }
            if want.closed { t.push("C07"); }
            f.add(&t, format!("{}: sent {}, expected {} ({})", cut(op), cut(&hex(&got)), cut(&hex(&wout)), want.why));
        }
        // a first byte that no packet has may be refused before the rest is there
        if ended && !m.closed && (m.buf.first().map_or(false, |b| !ok_first(*b)) || m.buf.len() == 5 && matches!(dec_len(&m.buf[1..]), Len::TooLong)) { break; }
        if ended != m.closed {
            let mut t = tags.clone();
            t.extend(match (want.why, w[0]) {
                ("a malformed packet ends the connection", _) => vec!["C07", "C16"],
                ("the first packet is not CONNECT", _) | ("a second CONNECT", _) => vec!["C16"],
                ("DISCONNECT", _) | ("taken over", _) => vec!["C15"],
                ("a packet only a server sends", _) => vec!["C16", "C07"],
                ("", "b") | ("", "pieces") => vec!["C17", "C18", "C20"],
                ("keep alive ran out", _) => vec!["C19"],
                ("end of the stream", _) => vec!["C20"],
                _ => vec!["C16", "C17", "C18"],
            });
            f.add(&t, format!("{}: the connection is {}, expected {} ({})", cut(op), if ended { "closed" } else { "open" }, if m.closed { "closed" } else { "open" }, want.why));
        }
        if !f.list.is_empty() || ended { break; }
    }
    handler.abort();
    broker.abort();
    reader.abort();
}
fn cut(s: &str) -> String { if s.len() > 200 { format!("{}..", s.chars().take(200).collect::<String>()) } else { s.into() } }
pub fn exec(ops: &str, f: &mut Fail) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    rt.block_on(script(ops, f));
}

fn con(cid: &str, clean: bool, ka: u16) -> String { hex(&encode(&P::Connect { flags: if clean { 2 } else { 0 }, ka, cid: cid.as_bytes().to_vec(), wt: None, wm: None, user: None, pass: None })) }
fn p(q: u8, dup: u8, topic: &str, id: u16, payload: &[u8]) -> Vec<u8> { encode(&P::Publish { flags: 0x30 | q << 1 | dup << 3, topic: topic.into(), id: if q > 0 { Some(id) } else { None }, payload: payload.to_vec() }) }
pub fn fixed(prop: &str) -> Vec<String> {
    let c = con("cl", true, 10);
    let h = |p: P| hex(&encode(&p));
    let mut v: Vec<String> = vec![];
    let kinds = [
        vec![0xC0, 0], vec![0xD0, 0], vec![0xE0, 0], vec![0x20, 2, 0, 0],
        encode(&P::Ack { kind: 4, id: 7 }), encode(&P::Ack { kind: 5, id: 0x1234 }), encode(&P::Ack { kind: 6, id: 0xff00 }), encode(&P::Ack { kind: 7, id: 7 }), encode(&P::Ack { kind: 11, id: 7 }),
        p(0, 0, "t", 0, b"x"), p(1, 0, "t", 300, b"xy"), p(2, 0, "t", 65535, b""),
        encode(&P::Subscribe { id: 9, filters: vec![(b"a/+".to_vec(), 1), (b"a#".to_vec(), 2), (b"#".to_vec(), 2)] }),
        encode(&P::Unsubscribe { id: 513, filters: vec![b"a".to_vec(), b"#".to_vec()] }), encode(&P::Suback { id: 3, codes: vec![0] }), unhex(&c),
    ];
    match prop {
        "C16" | "C17" | "C07" => {
            for k in &kinds {
                v.push(format!("b,{}", hex(k)));
                v.push(format!("b,{};b,{};b,c000", c, hex(k)));
                v.push(format!("b,{}{};b,c000", c, hex(k)));
                for pol in ["refuse", "drop", "gone"] { v.push(format!("b,{};policy,{};b,{};b,c000", c, pol, hex(k))); }
            }
            for pol in ["refuse", "drop", "gone"] { v.push(format!("policy,{};b,{};b,c000", pol, c)); }
            v.push(format!("present;b,{};b,c000", con("x", false, 0)));
            v.push(format!("b,{};b,c000", con("", true, 0)));
            v.push(format!("b,{}", con("", false, 0)));
            v.push(format!("b,{};b,{}", c, con("", false, 0)));
            for lv in [0, 3, 5, 132] { let mut b = unhex(&c); b[8] = lv; v.push(format!("b,{}", hex(&b))); v.push(format!("b,{};b,{}", c, hex(&b))); }
            v.push(format!("b,{};b,{};b,{};b,e000", con("", true, 0), h(P::Subscribe { id: 1, filters: vec![(b"x".to_vec(), 0)] }), h(P::Unsubscribe { id: 2, filters: vec![b"x".to_vec()] })));
            v.push(format!("b,{};kick", c));
            v.push("eof".into());
            v.push("stop".into());
            v.push(format!("b,{};stop", c));
        }
        "C18" => {
            let a = |id: u16| hex(&p(2, 0, "q", id, b"m"));
            let d = |id: u16| hex(&p(2, 1, "q", id, b"m"));
            let r = |id: u16| h(P::Ack { kind: 6, id });
            v.push(format!("b,{};b,{};b,{};b,{};b,{};b,{}", c, a(1), d(1), a(2), r(1), a(1)));
            v.push(format!("b,{};b,{};b,{};b,{};b,{}", c, a(1), r(2), d(1), a(257)));
            v.push(format!("b,{};b,{};b,{};b,{}", c, hex(&p(1, 0, "q", 1, b"m")), hex(&p(1, 1, "q", 1, b"m")), a(1)));
            v.push(format!("b,{};b,{}{}{}{}", c, a(1), hex(&p(0, 0, "z", 0, b"\x00\xff")), d(1), hex(&p(1, 0, "y", 1, b""))));
            // nothing but its PUBREL ends a QoS 2 message
            for kind in [4, 5, 7] { v.push(format!("b,{};b,{};b,{};b,{};b,{};b,{}", c, a(3), h(P::Ack { kind, id: 3 }), d(3), r(3), d(3))); }
            for k in &kinds[9..14] { v.push(format!("b,{};b,{};b,{};b,{}", c, a(9), hex(k), d(9))); }
            v.push(format!("b,{};b,{};b,{};b,{};b,{}", c, a(9), hex(&p(1, 0, "q", 9, b"m")), d(9), hex(&p(1, 1, "q", 9, b"m"))));
            v.push(format!("b,{};b,{};t,5000;b,{};b,{}", c, a(9), d(9), r(9)));
            v.push(format!("b,{};{};{}", c, (1..300).map(|i| format!("b,{}", a(i))).collect::<Vec<_>>().join(";"), (1..300).map(|i| format!("b,{}", d(i))).collect::<Vec<_>>().join(";")));
            v.push(format!("b,{};policy,gone;b,{}", c, hex(&p(0, 0, "q", 1, b"m"))));
            v.push(format!("b,{};b,{};policy,gone;b,{}", c, a(4), d(4)));
        }
        "C19" => for ka in [0u16, 1, 2, 3, 7, 10, 60, 100, 65535] {
            let p = con("k", true, ka);
            let k = ka as u64 * 1000;
            if ka == 0 { v.push(format!("b,{};t,3600000;b,c000;t,100000000", p)); continue; }
            v.push(format!("b,{};t,{};t,{}", p, k * 14 / 10, k * 2 / 10));
            for pk in &kinds { if ![0xE0, 0xD0, 0x20, 0x90, 0x10].contains(&(pk[0] & 0xF0)) && pk[0] != 0xB0 { v.push(format!("b,{};t,{};b,{};t,{};b,c000;t,{};t,{}", p, k * 14 / 10, hex(pk), k * 14 / 10, k * 14 / 10, k * 2 / 10)); } }
            v.push(format!("t,30000;b,{};t,{};t,{}", p, k * 14 / 10, k * 2 / 10));
            // a message to the client, or part of a packet, is no sign of life
            v.push(format!("b,{};t,{};m,300300016178;t,{}", p, k * 14 / 10, k * 2 / 10));
            v.push(format!("b,{};t,{};b,c0;t,{}", p, k * 14 / 10, k * 2 / 10));
        },
        "C20" | "C21" => {
            // every way to cut a short stream in two, with and without a message in between
            let s: Vec<u8> = [unhex(&c), p(1, 0, "tt", 5, b"abc"), vec![0xC0, 0], encode(&P::Subscribe { id: 9, filters: vec![(b"a".to_vec(), 1)] }), vec![0xC0, 0]].concat();
            let h0 = unhex(&c).len();
            for i in 1..s.len() {
                v.push(format!("pieces,{},{};b,c000", hex(&s[..i]), hex(&s[i..])));
                v.push(format!("b,{};m,300300016178;b,{};b,c000", hex(&s[..i]), hex(&s[i..])));
                v.push(format!("narrow;b,{};mm,3003000161ff,20;b,{};eof", hex(&s[..i]), hex(&s[i..])));
                if i >= h0 { v.push(format!("b,{};eof", hex(&s[..i]))); }
            }
            v.push(format!("pieces,{}", s.iter().map(|x| format!("{:02x}", x)).collect::<Vec<_>>().join(",")));
            let big = p(0, 0, "big", 0, &vec![0x61; 40_000]);
            v.push(format!("b,{};pieces,{};b,c000", c, big.chunks(7001).map(hex).collect::<Vec<_>>().join(",")));
            v.push(format!("b,{};b,{};b,c000", c, hex(&big)));
            v.push(format!("narrow;b,{};m,{};b,c000", c, hex(&p(0, 0, "big", 0, &vec![0x62; 600]))));
            v.push(format!("b,{};mm,3003000161ff,90;b,c000", c));
            for n in [0usize, 122, 123, 124, 250, 1018, 4090, 8187, 16377, 16378, 16379, 32762, 65530, 65531, 65532, 70_000, 140_000] { v.push(format!("b,{};m,{};b,c000;m,{};b,c000", c, hex(&p(0, 0, "t", 0, &vec![0x63; n])), hex(&p(2, 1, "t", 77, &vec![0x64; n])))); }
            // what was queued before a takeover is sent before the end
            for n in [1, 2, 5, 40] { let q = vec!["m3003000161ff"; n].join(","); v.push(format!("b,{};race,{},k", c, q)); v.push(format!("narrow;b,{};race,h,{},y,k", c, q)); }
            for (x, y) in [(1, 1), (3, 2), (2, 9), (30, 30)] {
                let q = vec!["m3003000161ff"; x].join(",");
                let acks = (1..=y).map(|i| format!("b{}", hex(&p(1, 0, "t", i, b"z")))).collect::<Vec<_>>().join(",");
                for n in ["", "narrow;"] { for hold in ["", "h,", "h,y,"] { v.push(format!("{}b,{};race,{}{},{};b,c000", n, c, hold, q, acks)); v.push(format!("{}b,{};race,{}{},y,{},y,{};b,c000", n, c, hold, acks, q, acks)); } }
            }
            if prop == "C20" { for n in [16384, 2097151, 2097152, 2097153] { v.push(format!("b,{};bigpub,{};b,c000", c, n)); } }
        }
        _ => {}
    }
    v
}
pub fn random(prop: &str, r: &mut Rng) -> String {
    let mut ops: Vec<String> = vec![];
    if r.chance(3) { ops.push("narrow".into()); }
    if r.chance(3) { ops.push("present".into()); }
    let kinds: &[u8] = match prop { "C18" => &[3, 3, 3, 6, 5, 4, 7, 12], "C17" => &[3, 3, 4, 5, 6, 7, 8, 10, 12], _ => &[3, 3, 4, 5, 6, 7, 8, 8, 10, 12, 12] };
    let mut stream: Vec<u8> = vec![];
    let ka = *r.pick(&[0u16, 1, 10, 60]);
    if !(prop == "C16" && r.chance(3)) { stream.extend(unhex(&con(r.pick(&["a", "client", ""]), true, ka))); }
    let n = 1 + r.below(8);
    for i in 0..n {
        let k = if prop == "C16" && r.chance(3) { *r.pick(&[1, 2, 9, 11, 13, 14]) } else { *r.pick(kinds) };
        let mut p = packet(r, k);
        if prop == "C18" { match &mut p { P::Publish { id: Some(i), .. } => *i = 1 + r.below(3) as u16, P::Ack { id, .. } => *id = 1 + r.below(3) as u16, _ => {} } }
        let mut b = encode(&p);
        if (prop == "C07" || r.chance(12)) && i + 1 == n { b = mutate(r, &b); }
        stream.extend(b);
    }
    // pieces
    let mut at = 0;
    let mut pieces = vec![];
    while at < stream.len() {
        let l = match r.below(4) { 0 => 1, 1 => 1 + r.below(4), 2 => 1 + r.below(40), _ => stream.len() - at }.min(stream.len() - at);
        pieces.push(hex(&stream[at..at + l]));
        at += l;
        if r.chance(3) {
            ops.push(format!("pieces,{}", pieces.join(",")));
            pieces.clear();
            match r.below(if prop == "C21" { 4 } else { 8 }) { 0 => { let m = encode(&packet(r, 3)); ops.push(format!("m,{}", if r.chance(2) { hex(&m) } else { "300300016178".into() })) } 1 => ops.push("mm,3003000161ff,5".into()), 3 if prop == "C21" || prop == "C20" => { let b = hex(&encode(&packet(r, 12))); let k = id(r); let a = hex(&p(1, 0, "t", k, b"z")); ops.push(format!("race,{}m3003000161ff,b{},{}m300300016178,b{}", if r.chance(2) { "h," } else { "" }, b, if r.chance(2) { "y," } else { "" }, a)) } 2 => ops.push("t,500".into()), _ => {} }
        }
    }
    if !pieces.is_empty() { ops.push(format!("pieces,{}", pieces.join(","))); }
    if r.chance(6) { ops.push("eof".into()); } else if r.chance(8) { ops.push("kick".into()); } else { ops.push("b,c000".into()); }
    ops.join(";")
}
