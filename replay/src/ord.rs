//! The order in which one publisher's messages reach the core and the subscribers.
use super::app::{Backend, Direct};
use super::e2e::Conn;
use super::gen::*;
use super::oracle::*;
use super::Fail;
use crate::core::enums::{ClientEvent, Command};
use crate::handler::client_handler;
use bytes::Bytes;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

/// numbers seen so far per (topic, QoS of the publication)
#[derive(Default)]
struct Last(BTreeMap<(Vec<u8>, u8), u32>);
impl Last {
    fn see(&mut self, who: &str, topic: &[u8], payload: &[u8], f: &mut Fail) {
        if payload.len() < 5 { return; }
        let (q, n) = (payload[0], u32::from_be_bytes([payload[1], payload[2], payload[3], payload[4]]));
        if let Some(m) = self.0.insert((topic.to_vec(), q), n) {
            if n < m { f.add(&["C23"], format!("{}: message {} of {:?} at QoS {} after message {}", who, n, String::from_utf8_lossy(topic), q, m)); }
        }
    }
    fn packet(&mut self, who: &str, b: &[u8], f: &mut Fail) {
        if let Ok(Some((P::Publish { topic, payload, .. }, _))) = decode(b) { self.see(who, &topic, &payload, f); }
    }
}
/// n publications: topic, QoS, payload starting with QoS and number
fn messages(seed: u64, n: usize) -> Vec<(String, u8, Vec<u8>)> {
    let mut r = Rng(seed);
    let topics = ["a", "a/b", "b", "a/b/c"];
    (0..n).map(|i| {
        let q = if r.chance(2) { 0 } else { r.below(3) as u8 };
        let mut p = vec![q];
        p.extend((i as u32).to_be_bytes());
        p.extend(vec![0x2e; if r.chance(5) { 1 + r.below(400) } else { r.below(4) }]);
        (topics[if r.chance(2) { 0 } else { r.below(4) }].to_string(), q, p)
    }).collect()
}
fn subs(s: &str) -> Vec<Vec<(String, u8)>> {
    s.split('/').filter(|x| !x.is_empty()).map(|c| c.split('|').map(|x| { let (a, q) = x.rsplit_once('=').unwrap(); (a.replace('.', "/"), q.parse().unwrap()) }).collect()).collect()
}
fn publish(t: &str, q: u8, id: u16, p: &[u8]) -> Vec<u8> { encode(&P::Publish { flags: 0x30 | q << 1, topic: t.as_bytes().to_vec(), id: if q > 0 { Some(id) } else { None }, payload: p.to_vec() }) }
fn con(cid: &str) -> Vec<u8> { encode(&P::Connect { flags: 2, ka: 0, cid: cid.as_bytes().to_vec(), wt: None, wm: None, user: None, pass: None }) }

/// case: app,SUBS,SEED,N | tcp,SUBS,SEED,N | up,SEED,N | down,SEED,N,late
pub fn exec(case: &str, f: &mut Fail) {
    let w: Vec<&str> = case.split(',').collect();
    match w[0] {
        "app" => {
            let mut b = Direct::new();
            let subs = subs(w[1]);
            for (i, s) in subs.iter().enumerate() { b.connect(i, &format!("s{}", i), i % 2 == 0); b.subscribe(i, s); }
            let mut last: Vec<Last> = subs.iter().map(|_| Last::default()).collect();
            for (k, (t, q, p)) in messages(w[2].parse().unwrap(), w[3].parse().unwrap()).iter().enumerate() {
                b.publish(t, *q, p);
                // other requests in between
                if k % 17 == 5 { let i = k % subs.len(); b.subscribe(i, &subs[i]); }
            }
            for i in 0..subs.len() { for g in b.collect(i).0 { last[i].packet(&format!("subscriber {}", i), &g, f); } }
        }
        "tcp" => {
            let port = super::server();
            let subs = subs(w[1]);
            let tag = format!("{:?}", Instant::now()).replace(|c: char| !c.is_ascii_digit(), "");
            let wait = Duration::from_secs(3);
            let mut cs: Vec<Conn> = vec![];
            for (i, s) in subs.iter().enumerate() {
                let mut c = Conn::open(port).expect("connect");
                c.send(&con(&format!("o{}x{}", tag, i)));
                c.packet(wait);
                c.send(&encode(&P::Subscribe { id: 1, filters: s.iter().map(|(f, q)| (format!("{}/{}", tag, f).into_bytes(), *q)).collect() }));
                c.packet(wait);
                cs.push(c);
            }
            let mut p = Conn::open(port).expect("connect");
            p.send(&con(&format!("o{}p", tag)));
            p.packet(wait);
            let msgs = messages(w[2].parse().unwrap(), w[3].parse().unwrap());
            let mut all = vec![];
            for (i, (t, q, pl)) in msgs.iter().enumerate() { all.extend(publish(&format!("{}/{}", tag, t), *q, 1 + i as u16, pl)); }
            // a last message to know the end
            for (i, _) in subs.iter().enumerate() { let _ = i; }
            p.send(&all);
            for (i, c) in cs.iter_mut().enumerate() {
                let mut last = Last::default();
                let expect = msgs.iter().filter(|m| subs[i].iter().any(|(f, _)| matches(f, &m.0))).count();
                for _ in 0..expect { match c.packet(wait) { Some(g) => last.packet(&format!("subscriber {}", i), &g, f), None => break } }
            }
            p.send(&[0xE0, 0]);
            for c in cs.iter_mut() { c.send(&[0xE0, 0]); }
        }
        "up" | "down" => {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
            rt.block_on(one(w[0] == "up", w[1].parse().unwrap(), w[2].parse().unwrap(), w.get(3) == Some(&"late"), f));
        }
        x => panic!("unknown case {}", x),
    }
}
fn matches(f: &str, t: &str) -> bool { super::oracle::matches(f, t) }
async fn settle() { for _ in 0..2000 { tokio::task::yield_now().await; } }
async fn one(up: bool, seed: u64, n: usize, late: bool, f: &mut Fail) {
    let (mut far_in, near_in) = tokio::io::duplex(1 << 20);
    let (near_out, mut far_out) = tokio::io::duplex(if late { 64 } else { 1 << 20 });
    let (ctx, mut crx) = tokio::sync::mpsc::channel::<Command>(100);
    let token = tokio_util::sync::CancellationToken::new();
    let h = tokio::spawn(async move { let _ = client_handler(near_in, near_out, ctx, token).await; });
    let _ = far_in.write_all(&con("c")).await;
    settle().await;
    let Ok(Command::RegisterClient { message_channel, callback, .. }) = crx.try_recv() else { h.abort(); return };
    let _ = callback.send(Ok(false));
    settle().await;
    let msgs = messages(seed, n);
    let mut last = Last::default();
    let mut buf: Vec<u8> = vec![];
    let mut t = vec![0u8; 65536];
    if up {
        for (i, (t, q, p)) in msgs.iter().enumerate() { let _ = far_in.write_all(&publish(t, *q, 1 + i as u16, p)).await; if i % 40 == 7 { settle().await; } }
        for _ in 0..40 {
            settle().await;
            while let Ok(c) = crx.try_recv() { if let Command::Publish { topic, payload, .. } = c { last.see("the core", topic.as_bytes(), &payload, f); } }
            if let Ok(Ok(_)) = tokio::time::timeout(Duration::from_millis(1), far_out.read(&mut t)).await {}
        }
    } else {
        let mut it = msgs.iter().enumerate();
        let mut left = true;
        while left {
            for _ in 0..60 { match it.next() { Some((i, (t, q, p))) => { let _ = message_channel.try_send(ClientEvent::Message(Bytes::from(publish(t, *q, 1 + i as u16, p)))); } None => left = false } }
            // acknowledgements of its own in between
            let _ = far_in.write_all(&publish("own", 1, 9, b"x")).await;
            settle().await;
            while let Ok(_) = crx.try_recv() {}
            for _ in 0..400 { match tokio::time::timeout(Duration::from_millis(1), far_out.read(&mut t)).await { Ok(Ok(k)) if k > 0 => buf.extend(&t[..k]), _ => break } settle_short().await; }
        }
        settle().await;
        while let Some(k) = frame(&buf) { if k > buf.len() { break; } last.packet("the client", &buf[..k].to_vec(), f); buf.drain(..k); }
    }
    h.abort();
}
async fn settle_short() { for _ in 0..50 { tokio::task::yield_now().await; } }
pub fn fixed() -> Vec<String> {
    let mut v = vec![];
    for s in 1..6 { v.push(format!("up,{},90", s)); v.push(format!("up,{},300", s)); v.push(format!("down,{},50", s)); v.push(format!("down,{},200,late", s)); }
    for (i, s) in ["a=0/#=1/a.#=2|a=0", "a=2|#=0|a.b=1/a.+=1", "#=2"].iter().enumerate() { for n in [40, 90, 600] { v.push(format!("app,{},{},{}", s, i, n)); v.push(format!("tcp,{},{},{}", s, i, n)); } }
    v
}
pub fn random(r: &mut Rng) -> String {
    let seed = r.below(1 << 30);
    let n = *r.pick(&[30, 60, 150, 400]);
    let pool = ["a=0", "a=1", "a=2", "#=0", "#=1", "#=2", "a.#=1", "a.+=2", "b=1", "+=0"];
    let s: Vec<String> = (0..1 + r.below(3)).map(|_| (0..1 + r.below(3)).map(|_| r.pick(&pool).to_string()).collect::<Vec<_>>().join("|")).collect();
    match r.below(5) { 0 => format!("up,{},{}", seed, n), 1 => format!("down,{},{}{}", seed, n, if r.chance(2) { ",late" } else { "" }), 2 => format!("tcp,{},{},{}", s.join("/"), seed, n), _ => format!("app,{},{},{}", s.join("/"), seed, n) }
}
