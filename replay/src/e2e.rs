//! The whole broker over TCP: what clients send and see.
use super::app::Backend;
use super::oracle::*;
use super::Fail;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::TcpStream;
use std::time::{Duration, Instant};

pub struct Conn { s: TcpStream, buf: Vec<u8>, eof: bool }
impl Conn {
    pub fn open(port: u16) -> Option<Conn> {
        let s = TcpStream::connect(("127.0.0.1", port)).ok()?;
        s.set_nodelay(true).ok()?;
        Some(Conn { s, buf: vec![], eof: false })
    }
    pub fn send(&mut self, b: &[u8]) { let _ = self.s.write_all(b); }
    /// the next packet; None at the end of the stream or after the time
    pub fn packet(&mut self, wait: Duration) -> Option<Vec<u8>> {
        let end = Instant::now() + wait;
        loop {
            if let Some(n) = frame(&self.buf) { if self.buf.len() >= n { return Some(self.buf.drain(..n).collect()); } }
            if self.eof { return None; }
            let left = end.saturating_duration_since(Instant::now());
            if left.is_zero() { return None; }
            let _ = self.s.set_read_timeout(Some(left));
            let mut t = [0u8; 65536];
            quickack(&self.s);
            match self.s.read(&mut t) {
                Ok(0) => self.eof = true,
                Ok(n) => self.buf.extend(&t[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => {}
                Err(_) => self.eof = true,
            }
        }
    }
}
extern "C" { fn setsockopt(fd: i32, level: i32, name: i32, value: *const i32, len: u32) -> i32; }
/// acknowledge at once, the broker's next small write waits for it
fn quickack(s: &TcpStream) { use std::os::fd::AsRawFd; let one = 1i32; unsafe { setsockopt(s.as_raw_fd(), 6, 12, &one, 4); } }
const WAIT: Duration = Duration::from_secs(4);
pub struct Tcp { port: u16, tag: String, publisher: Option<Conn>, slots: BTreeMap<usize, (Conn, Vec<Vec<u8>>)>, id: u16, lost: Option<String> }
impl Tcp {
    pub fn new(port: u16, tag: &str) -> Tcp {
        let mut t = Tcp { port, tag: tag.into(), publisher: None, slots: BTreeMap::new(), id: 0, lost: None };
        let mut c = Conn::open(port).expect("connect to the broker");
        c.send(&encode(&P::Connect { flags: 2, ka: 0, cid: format!("pub{}", tag).into_bytes(), wt: None, wm: None, user: None, pass: None }));
        if c.packet(WAIT) != Some(vec![0x20, 2, 0, 0]) { t.lost = Some("the publisher's CONNECT is not accepted".into()); }
        t.publisher = Some(c);
        t
    }
    pub fn problem(&self, f: &mut Fail) { if let Some(l) = &self.lost { f.add(&["C14", "C17", "C18"], l.clone()); } }
    /// wait for one particular answer, keeping messages
    fn answer(&mut self, slot: usize, first: u8) -> Option<Vec<u8>> {
        let (c, q) = self.slots.get_mut(&slot)?;
        loop {
            let p = c.packet(WAIT)?;
            if p[0] == first { return Some(p); }
            q.push(p);
        }
    }
    fn put(&mut self, topic: &str, q: u8, payload: &[u8]) {
        self.id = self.id % 60000 + 1;
        let id = self.id;
        let c = self.publisher.as_mut().unwrap();
        c.send(&encode(&P::Publish { flags: 0x30 | q << 1, topic: topic.as_bytes().to_vec(), id: if q > 0 { Some(id) } else { None }, payload: payload.to_vec() }));
        let mut expect = |c: &mut Conn, p: P| { let g = c.packet(WAIT); if g.as_deref() != Some(&encode(&p)[..]) { self.lost = Some(format!("answer to a QoS {} PUBLISH is {:?}, expected {:?}", q, g, p)); } };
        match q {
            1 => expect(c, P::Ack { kind: 4, id }),
            2 => { expect(c, P::Ack { kind: 5, id }); c.send(&encode(&P::Ack { kind: 6, id })); expect(c, P::Ack { kind: 7, id }); }
            _ => { c.send(&[0xC0, 0]); expect(c, P::Bare { kind: 13 }); }
        }
    }
}
impl Backend for Tcp {
    fn connect(&mut self, slot: usize, cid: &str, clean: bool) -> Option<bool> {
        let mut c = Conn::open(self.port)?;
        c.send(&encode(&P::Connect { flags: if clean { 2 } else { 0 }, ka: 0, cid: format!("{}{}", cid, self.tag).into_bytes(), wt: None, wm: None, user: None, pass: None }));
        let p = c.packet(WAIT)?;
        self.slots.insert(slot, (c, vec![]));
        if p.len() != 4 || p[0] != 0x20 || p[3] != 0 || p[2] > 1 { return None; }
        let f = format!("$s/{}/{}", self.tag, slot);
        self.subscribe(slot, &[(f, 0)])?;
        Some(p[2] == 1)
    }
    fn subscribe(&mut self, slot: usize, f: &[(String, u8)]) -> Option<Vec<u8>> {
        self.id = self.id % 60000 + 1;
        let id = self.id;
        let b = encode(&P::Subscribe { id, filters: f.iter().map(|(f, q)| (f.as_bytes().to_vec(), *q)).collect() });
        self.slots.get_mut(&slot)?.0.send(&b);
        match decode(&self.answer(slot, 0x90)?) { Ok(Some((P::Suback { id: i, codes }, _))) if i == id => Some(codes), _ => None }
    }
    fn unsubscribe(&mut self, slot: usize, f: &[String]) -> bool {
        self.id = self.id % 60000 + 1;
        let id = self.id;
        let b = encode(&P::Unsubscribe { id, filters: f.iter().map(|f| f.as_bytes().to_vec()).collect() });
        if let Some(s) = self.slots.get_mut(&slot) { s.0.send(&b); }
        self.answer(slot, 0xB0) == Some(encode(&P::Ack { kind: 11, id }))
    }
    fn publish(&mut self, topic: &str, q: u8, payload: &[u8]) { self.put(topic, q, payload) }
    fn disconnect(&mut self, slot: usize) {
        if let Some((c, _)) = self.slots.get_mut(&slot) {
            c.send(&[0xE0, 0]);
            while c.packet(WAIT).is_some() {}
            if !c.eof { self.lost = Some("connection stays open after DISCONNECT".into()); }
        }
        self.slots.remove(&slot);
    }
    fn drop_conn(&mut self, slot: usize) { self.slots.remove(&slot); }
    fn collect(&mut self, slot: usize) -> (Vec<Vec<u8>>, bool) {
        let mine = format!("$s/{}/{}", self.tag, slot);
        self.put(&mine, 0, b"");
        let lost = self.lost.clone();
        let (c, q) = match self.slots.get_mut(&slot) { Some(x) => x, None => return (vec![], true) };
        let mut out: Vec<Vec<u8>> = q.drain(..).collect();
        loop {
            match c.packet(WAIT) {
                None => {
                    if !c.eof && lost.is_none() { self.lost = Some(format!("connection {} did not get the marker message", slot)); }
                    let eof = c.eof;
                    out.retain(|p| !matches!(decode(p), Ok(Some((P::Publish { topic, .. }, _))) if topic.starts_with(b"$s/")));
                    return (out, eof);
                }
                Some(p) => {
                    if let Ok(Some((P::Publish { topic, .. }, _))) = decode(&p) { if topic == mine.as_bytes() { break; } }
                    out.push(p);
                }
            }
        }
        out.retain(|p| !matches!(decode(p), Ok(Some((P::Publish { topic, .. }, _))) if topic.starts_with(b"$s/")));
        (out, false)
    }
}
