//! Sessions, subscriptions and publications of several clients against the model, directly and over TCP.
use super::gen::*;
use super::oracle::*;
use super::Fail;
use super::table::qos;
use crate::core::enums::{ClientEvent, ProtocalVersion};
use crate::core::App;
use bytes::Bytes;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use tokio::sync::{mpsc, oneshot};

pub trait Backend {
    /// session present; None when the connection is refused
    fn connect(&mut self, slot: usize, cid: &str, clean: bool) -> Option<bool>;
    /// None: no answer
    fn subscribe(&mut self, slot: usize, filters: &[(String, u8)]) -> Option<Vec<u8>>;
    fn unsubscribe(&mut self, slot: usize, filters: &[String]) -> bool;
    fn publish(&mut self, topic: &str, q: u8, payload: &[u8]);
    fn disconnect(&mut self, slot: usize);
    /// the connection just goes away
    fn drop_conn(&mut self, slot: usize);
    /// what the connection got since the last call, and whether it is closed
    fn collect(&mut self, slot: usize) -> (Vec<Vec<u8>>, bool);
    fn finish(&mut self) {}
}

/// a connection's end of its channel: read while the broker waits for room, and when the case looks at it
pub struct Slot { cid: String, tx: mpsc::Sender<ClientEvent>, rx: mpsc::Receiver<ClientEvent>, got: VecDeque<ClientEvent>, dead: bool }
pub struct Direct { rt: tokio::runtime::Runtime, app: App, slots: BTreeMap<usize, Slot>, room: usize }
/// run a step of the broker; whenever it waits, every connection reads one event
async fn pump<T>(slots: &mut BTreeMap<usize, Slot>, f: impl std::future::Future<Output = T>) -> T {
    let mut f = std::pin::pin!(f);
    std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
        std::task::Poll::Ready(x) => std::task::Poll::Ready(x),
        std::task::Poll::Pending => {
            for s in slots.values_mut().filter(|s| !s.dead) { if let Ok(e) = s.rx.try_recv() { s.got.push_back(e); } }
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        }
    }).await
}
impl Direct {
    pub fn new() -> Self { Self::with_room(100_000) }
    pub fn with_room(room: usize) -> Self { Direct { rt: tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap(), app: App::new(), slots: BTreeMap::new(), room } }
}
impl Backend for Direct {
    fn connect(&mut self, slot: usize, cid: &str, clean: bool) -> Option<bool> {
        let (tx, rx) = mpsc::channel(self.room);
        let (a, b) = oneshot::channel();
        self.slots.insert(slot, Slot { cid: cid.into(), tx: tx.clone(), rx, got: VecDeque::new(), dead: false });
        let app = &mut self.app;
        self.rt.block_on(pump(&mut self.slots, async { app.connect(cid.into(), tx, ProtocalVersion::Four, clean, a).await; b.await.ok().and_then(|r| r.ok()) }))
    }
    fn subscribe(&mut self, slot: usize, f: &[(String, u8)]) -> Option<Vec<u8>> {
        let (a, b) = oneshot::channel();
        self.app.subscribe(self.slots[&slot].cid.clone(), f.iter().map(|(f, q)| (f.clone(), qos(*q))).collect(), a);
        self.rt.block_on(b).ok().and_then(|r| r.ok()).map(|c| c.iter().map(|c| c.to_u8()).collect())
    }
    fn unsubscribe(&mut self, slot: usize, f: &[String]) -> bool {
        let (a, b) = oneshot::channel();
        self.app.unsubscribe(self.slots[&slot].cid.clone(), f.to_vec(), a);
        self.rt.block_on(b).ok().map_or(false, |r| r.is_ok())
    }
    fn publish(&mut self, topic: &str, q: u8, payload: &[u8]) {
        let app = &mut self.app;
        self.rt.block_on(pump(&mut self.slots, app.publish(topic.into(), qos(q), Bytes::copy_from_slice(payload))))
    }
    fn disconnect(&mut self, slot: usize) {
        let s = &self.slots[&slot];
        self.app.disconnect(s.cid.clone(), s.tx.clone());
    }
    fn drop_conn(&mut self, slot: usize) { let s = self.slots.get_mut(&slot).unwrap(); s.rx.close(); s.dead = true; }
    fn collect(&mut self, slot: usize) -> (Vec<Vec<u8>>, bool) {
        let mut v = vec![];
        let mut closed = false;
        let s = self.slots.get_mut(&slot).unwrap();
        while let Ok(e) = s.rx.try_recv() { s.got.push_back(e); }
        while let Some(e) = s.got.pop_front() {
            match e { ClientEvent::Message(b) => if !closed { v.push(b.to_vec()) }, ClientEvent::Disconnect => closed = true }
        }
        (v, closed)
    }
}
/// one history on the backend and on the model
pub fn run(ops: &str, b: &mut dyn Backend, f: &mut Fail) {
    let mut m = Model::default();
    let mut cid: BTreeMap<usize, String> = BTreeMap::new();
    let mut open: BTreeSet<usize> = BTreeSet::new();
    let mut sess_of = BTreeMap::new();
    let mut used: BTreeMap<usize, BTreeSet<u16>> = BTreeMap::new();
    let mut recent: BTreeMap<usize, Vec<u16>> = BTreeMap::new();
    let mut churn = false;      // a filter was removed or replaced
    let mut reconnects = false;
    // with "+" after an operation, nobody looks at what arrived before the next one
    let mut want: BTreeMap<usize, Vec<Delivery>> = BTreeMap::new();
    let mut gone: BTreeSet<usize> = BTreeSet::new();
    for op in ops.split(';') {
        let w: Vec<&str> = op.split(',').collect();
        let slot: usize = w.get(1).and_then(|s| s.parse().ok()).unwrap_or(0);
        let here = open.contains(&slot) && !gone.contains(&slot);
        match w[0].trim_end_matches('+') {
            "c" => {
                let clean = w[3] == "1";
                let (sp, old) = m.connect(slot, w[2], clean);
                cid.insert(slot, w[2].into());
                sess_of.insert(slot, m.sessions.get(w[2]).map(|x| x.id).unwrap_or(0));
                if let Some(o) = old { if open.contains(&o) { gone.insert(o); } reconnects = true; }
                match b.connect(slot, w[2], clean) {
                    None => f.add(&["C15", "C16"], format!("{}: connection refused", op)),
                    Some(g) => if g != sp { f.add(&["C15"], format!("{}: session present {}, expected {}", op, g, sp)); },
                }
                open.insert(slot);
            }
            "s" => if here {
                let fs: Vec<(String, u8)> = w[2].split('|').map(|x| { let (a, q) = x.rsplit_once('=').unwrap(); (a.to_string(), q.parse().unwrap()) }).collect();
                churn |= m.subs.len() > 0;
                let c = m.subscribe(&cid[&slot], &fs);
                let g = b.subscribe(slot, &fs);
                if g != c { f.add(&["C13"], format!("{}: answered {:?}, expected {:?}", op, g, c)); }
            },
            "u" => if here {
                let fs: Vec<String> = w[2].split('|').map(|x| x.to_string()).collect();
                churn = true;
                let c = m.unsubscribe(&cid[&slot], &fs);
                if b.unsubscribe(slot, &fs) != c { f.add(&["C11"], format!("{}: wrong answer, expected {}", op, c)); }
            },
            "p" => {
                let q = w[2].parse().unwrap();
                let pl = unhex(w[3]);
                let times: usize = w.get(4).map_or(1, |x| x.parse().unwrap());
                for _ in 0..times {
                    for d in m.publish(w[1], q, &pl) { if open.contains(&d.slot) { want.entry(d.slot).or_default().push(d); } }
                    b.publish(w[1], q, &pl);
                }
            }
            "x" => if here {
                m.disconnect(slot, &cid[&slot]);
                b.disconnect(slot);
                open.remove(&slot);
            },
            // a connection that was replaced says goodbye late
            "X" => if cid.contains_key(&slot) && !here { m.disconnect(slot, &cid[&slot]); b.disconnect(slot); },
            // (the channels to the connections have room for one event)
            "N" => {}
            "d" => if here { b.drop_conn(slot); open.remove(&slot); },
            x => panic!("unknown op {}", x),
        }
        if w[0].ends_with('+') { continue; }
        let mut want = std::mem::take(&mut want);
        let gone = std::mem::take(&mut gone);
        for s in open.clone() {
            let (got, closed) = b.collect(s);
            if closed != gone.contains(&s) { f.add(&["C15"], format!("{}: connection {} {}", op, s, if closed { "was closed" } else { "was not closed although another one took its client identifier" })); }
            if closed || gone.contains(&s) { open.remove(&s); }
            let w = want.remove(&s).unwrap_or_default();
            let sess = sess_of.get(&s).copied().unwrap_or(0);
            let mut left = w.clone();
            for g in &got {
                match decode(g) {
                    Ok(Some((P::Publish { flags, topic, id, payload }, n))) if n == g.len() => {
                        let q = flags >> 1 & 3;
                        if flags & 9 != 0 { f.add(&["C14"], format!("{}: connection {} got a message with DUP or RETAIN set", op, s)); }
                        if q > 0 {
                            let i = id.unwrap_or(0);
                            let rec = recent.entry(sess).or_default();
                            if rec.iter().rev().take(300).any(|x| *x == i) || (used.entry(sess).or_default().contains(&i) && rec.len() < 65535) { f.add(&["C14"], format!("{}: packet identifier {} given twice to the same session", op, i)); }
                            rec.push(i);
                            used.get_mut(&sess).unwrap().insert(i);
                        }
                        match left.iter().position(|d| d.topic == topic && d.payload == payload) {
                            Some(k) => { let d = left.remove(k); if d.qos != q { f.add(&["C14", "C12"], format!("{}: connection {} got the message at QoS {}, expected {}", op, s, q, d.qos)); } }
                            None => {
                                let again = w.iter().any(|d| d.topic == topic && d.payload == payload);
                                let tags: &[&str] = if again { &["C12", "C14"] } else if w.is_empty() { if reconnects { &["C15", "C11", "C10"] } else if churn { &["C11", "C10"] } else { &["C10"] } } else { &["C14"] };
                                f.add(tags, format!("{}: connection {} got {:?} {:?}, expected {:?}", op, s, String::from_utf8_lossy(&topic), hex(&payload), w));
                            }
                        }
                    }
                    x => f.add(&["C14", "C08", "C21"], format!("{}: connection {} got {} = {:?}", op, s, hex(g), x)),
                }
            }
            if !closed && !left.is_empty() {
                let tags: &[&str] = if !got.is_empty() { &["C14"] } else if reconnects { &["C15", "C14", "C11", "C10"] } else if churn { &["C11", "C10", "C14"] } else { &["C10", "C14"] };
                f.add(tags, format!("{}: connection {} did not get {:?}", op, s, left));
            }
        }
        if !f.list.is_empty() { break; }
    }
    b.finish();
}
pub fn fixed(prop: &str) -> Vec<String> {
    match prop {
        "C13" => {
            let mut v = vec![];
            for n in [1022usize, 1023, 1024, 5000, 65000] { let d = "/".repeat(n); v.push(format!("c,0,a,1;c,1,b,1;s,0,{d}=1|{d}a=2|t=0;s,1,$share/g/{d}=1|{d}#=2;p,{d},1,01;p,{d}a,2,02;p,t,1,03;u,0,{d}|{d}a;p,{d},1,04;p,t,1,05")); }
            v
        }
        "C14" => vec!["N;c,0,a,1;c,1,b,0;s,0,t=1|u=2;s,1,t=2;p+,t,1,00,5;p+,t,0,01,3;p+,u,2,02,4;c,2,a,1;p,t,1,05,3".into(), "c,0,a,1;s,0,t=1|u=2;p,t,1,00,70000;p,t,2,01".into(), "c,0,a,1;s,0,t=2;p,t,2,00,65534;p,t,1,01;p,t,1,02;p,t,2,03;p,t,0,04".into()],
        "C15" => {
            let mut v = vec!["N;c,0,a,1;s,0,t=0;c,9,z,1;s,9,t=1;p+,t,1,00,3;c,1,a,1;s,1,t=0;p+,t,1,01;c,2,a,0;p+,t,2,03;c,3,z,0;p,t,0,02".into()];
            for a in 0..2 { for b in 0..2 { for end in ["", "x,0;", "d,0;"] { for late in ["", "X,0;"] {
                v.push(format!("c,0,a,{};s,0,t=1;c,9,z,1;s,9,t=2;{}c,1,a,{};{}p,t,1,aa;s,1,u=0;p,u,2,bb;x,1;c,2,a,0;p,t,1,cc;p,u,1,dd;c,3,a,1;p,t,1,ee", a, end, b, late));
            } } } }
            v
        }
        _ => vec![],
    }
}
pub fn random(prop: &str, r: &mut Rng, e2e: bool) -> String {
    let mut ops: Vec<String> = vec![];
    if !e2e && r.chance(4) { ops.push("N".into()); }
    let mut slot = 0;
    let mut live: Vec<usize> = vec![];
    let cids = ["a", "b", "c"];
    let deep = 3;
    let pool: Vec<String> = (0..4).map(|_| filter(r, deep, prop == "C13")).collect();
    let long = if r.chance(20) { 60 } else { 14 };
    let n = if prop == "C13" { 6 } else { 8 + r.below(long) };
    let fil = |r: &mut Rng| if r.chance(3) { filter(r, deep, prop == "C13" || prop == "C11") } else { r.pick(&pool).clone() };
    for i in 0..n {
        let k = if i < 2 { 0 } else { r.below(12) };
        match k {
            0 | 1 if (i < 2 || prop == "C15" || r.chance(3)) => {
                let c = if prop == "C15" { *r.pick(&cids[..2]) } else if i < 2 { cids[i] } else { *r.pick(&cids) };
                ops.push(format!("c,{},{},{}", slot, c, r.below(2)));
                live.push(slot);
                slot += 1;
            }
            0..=5 => {
                let m = count(r);
                let fs: Vec<String> = (0..m).map(|_| format!("{}={}", fil(r), r.below(3))).collect();
                ops.push(format!("s,{},{}", r.pick(&live), fs.join("|")));
            }
            6 => { let m = 1 + r.below(2); let mut fs: Vec<String> = (0..m).map(|_| fil(r)).collect(); if r.chance(4) { let i = r.below(fs.len() + 1); fs.insert(i, r.pick(&["$share", "a#", "#/a", "", "never/here"]).to_string()); } ops.push(format!("u,{},{}", r.pick(&live), fs.join("|"))); }
            7 if prop == "C15" || r.chance(4) => ops.push(format!("{},{}", r.pick(if e2e { &["x", "d", "x"] } else { &["x", "d", "X"] }), r.pick(&live))),
            _ => {
                let t = if r.chance(2) { pool.iter().map(|p| p.replace('+', "a").replace('#', "b")).next().unwrap() } else { topic(r, deep) };
                if ok_topic(t.as_bytes()) { let pl = if r.chance(10) { payload(r) } else { bytes(r, 6) }; let k = if e2e || !r.chance(40) { 1 } else { *r.pick(&[3, 260]) }; ops.push(format!("p,{},{},{},{}", t, r.below(3), hex(&pl[..if pl.len() > 5000 && e2e { 5000 } else { pl.len() }]), k)); }
            }
        }
    }
    if ops[0] == "N" { for o in &mut ops[1..] { if r.chance(2) { o.insert(1, '+'); } } }
    for _ in 0..2 { ops.push(format!("p,{},{},ee", topic(r, deep), r.below(3))); }
    ops.join(";")
}
