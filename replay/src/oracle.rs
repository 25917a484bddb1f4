//! What MQTT 3.1.1 says, written from the standard and independent of the broker's code:
//! wire format, topic matching, and the broker's sessions and subscriptions.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum P {
    Connect { flags: u8, ka: u16, cid: Vec<u8>, wt: Option<Vec<u8>>, wm: Option<Vec<u8>>, user: Option<Vec<u8>>, pass: Option<Vec<u8>> },
    Connack { flags: u8, code: u8 },
    Publish { flags: u8, topic: Vec<u8>, id: Option<u16>, payload: Vec<u8> },
    Ack { kind: u8, id: u16 },
    Subscribe { id: u16, filters: Vec<(Vec<u8>, u8)> },
    Suback { id: u16, codes: Vec<u8> },
    Unsubscribe { id: u16, filters: Vec<Vec<u8>> },
    Bare { kind: u8 },
}

pub enum Len { Value(usize, usize), Incomplete, TooLong }
pub fn dec_len(b: &[u8]) -> Len {
    let (mut v, mut m) = (0usize, 1usize);
    for i in 0..4 {
        match b.get(i) {
            None => return Len::Incomplete,
            Some(x) => {
                v += (*x as usize & 127) * m;
                if *x < 128 { return Len::Value(v, i + 1); }
                m *= 128;
            }
        }
    }
    Len::TooLong
}
pub fn enc_len(mut n: usize) -> Vec<u8> {
    let mut r = vec![];
    loop {
        if n < 128 { r.push(n as u8); return r; }
        r.push((n % 128 + 128) as u8);
        n /= 128;
    }
}
/// total size of the packet at the start of b, once its header is there
pub fn frame(b: &[u8]) -> Option<usize> {
    if b.is_empty() { return None; }
    match dec_len(&b[1..]) { Len::Value(v, n) => Some(1 + n + v), _ => None }
}
fn u16_(b: &mut &[u8]) -> Option<u16> {
    if b.len() < 2 { return None; }
    let r = b[0] as u16 * 256 + b[1] as u16;
    *b = &b[2..];
    Some(r)
}
fn u8_(b: &mut &[u8]) -> Option<u8> { let (x, r) = b.split_first()?; *b = r; Some(*x) }
fn bin(b: &mut &[u8]) -> Option<Vec<u8>> {
    let n = u16_(b)? as usize;
    if b.len() < n { return None; }
    let r = b[..n].to_vec();
    *b = &b[n..];
    Some(r)
}
pub fn ok_str(s: &[u8]) -> bool { std::str::from_utf8(s).is_ok() && !s.contains(&0) }
fn string(b: &mut &[u8]) -> Option<Vec<u8>> { let s = bin(b)?; if ok_str(&s) { Some(s) } else { None } }
pub fn ok_first(f: u8) -> bool {
    match f >> 4 { 0 | 15 => false, 3 => true, 6 | 8 | 10 => f & 15 == 2, _ => f & 15 == 0 }
}
pub fn ok_connect_flags(f: u8) -> bool {
    let (user, pass, retain, qos, will) = (f >> 7 & 1 == 1, f >> 6 & 1 == 1, f >> 5 & 1 == 1, f >> 3 & 3, f >> 2 & 1 == 1);
    f & 1 == 0 && qos < 3 && (will || (qos == 0 && !retain)) && (user || !pass)
}
pub fn ok_topic(t: &[u8]) -> bool { !t.is_empty() && !t.contains(&b'#') && !t.contains(&b'+') }
/// The decoder. Why a CONNECT was refused matters to the answer.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad { Malformed, Level, ClientId }
fn connect(b: &mut &[u8]) -> Result<P, Bad> {
    let m = Bad::Malformed;
    if string(b).ok_or(m)? != b"MQTT" { return Err(m); }
    if u8_(b).ok_or(m)? != 4 { return Err(Bad::Level); }
    let f = u8_(b).ok_or(m)?;
    if !ok_connect_flags(f) { return Err(m); }
    let ka = u16_(b).ok_or(m)?;
    let cid = string(b).ok_or(m)?;
    if cid.is_empty() && f & 2 == 0 { return Err(Bad::ClientId); }
    let (mut wt, mut wm, mut user, mut pass) = (None, None, None, None);
    if f & 4 != 0 { wt = Some(string(b).ok_or(m)?); wm = Some(bin(b).ok_or(m)?); }
    if f & 128 != 0 { user = Some(string(b).ok_or(m)?); }
    if f & 64 != 0 { pass = Some(bin(b).ok_or(m)?); }
    Ok(P::Connect { flags: f, ka, cid, wt, wm, user, pass })
}
fn body(first: u8, mut b: &[u8]) -> Result<P, Bad> {
    let m = Bad::Malformed;
    if !ok_first(first) { return Err(m); }
    let b = &mut b;
    let p = match first >> 4 {
        1 => connect(b)?,
        2 => {
            let flags = u8_(b).ok_or(m)?;
            let code = u8_(b).ok_or(m)?;
            if code > 5 { return Err(m); }
            P::Connack { flags, code }
        }
        3 => {
            let topic = string(b).ok_or(m)?;
            let q = first >> 1 & 3;
            if !ok_topic(&topic) || q == 3 { return Err(m); }
            let id = if q == 0 { None } else {
                let i = u16_(b).ok_or(m)?;
                if i == 0 { return Err(m); }
                Some(i)
            };
            let payload = b.to_vec();
            *b = &[];
            P::Publish { flags: first, topic, id, payload }
        }
        k @ (4 | 5 | 6 | 7 | 11) => P::Ack { kind: k, id: u16_(b).ok_or(m)? },
        8 => {
            let id = u16_(b).ok_or(m)?;
            if id == 0 || b.is_empty() { return Err(m); }
            let mut filters = vec![];
            while !b.is_empty() {
                let t = string(b).ok_or(m)?;
                let q = u8_(b).ok_or(m)?;
                if q > 2 { return Err(m); }
                filters.push((t, q));
            }
            P::Subscribe { id, filters }
        }
        9 => {
            let id = u16_(b).ok_or(m)?;
            let codes = b.to_vec();
            if codes.iter().any(|c| *c > 2 && *c != 0x80) { return Err(m); }
            *b = &[];
            P::Suback { id, codes }
        }
        10 => {
            let id = u16_(b).ok_or(m)?;
            if id == 0 || b.is_empty() { return Err(m); }
            let mut filters = vec![];
            while !b.is_empty() { filters.push(string(b).ok_or(m)?); }
            P::Unsubscribe { id, filters }
        }
        k => P::Bare { kind: k },
    };
    if b.is_empty() { Ok(p) } else { Err(m) }
}
/// the packet at the start of b and its size: Ok(None) while it is incomplete
pub fn decode(b: &[u8]) -> Result<Option<(P, usize)>, Bad> {
    if b.is_empty() { return Ok(None); }
    match dec_len(&b[1..]) {
        Len::TooLong => Err(Bad::Malformed),
        Len::Incomplete => Ok(None),
        Len::Value(v, n) => {
            if b.len() < 1 + n + v { return Ok(None); }
            body(b[0], &b[1 + n..1 + n + v]).map(|p| Some((p, 1 + n + v)))
        }
    }
}
pub fn st(s: &[u8]) -> Vec<u8> { let mut r = (s.len() as u16).to_be_bytes().to_vec(); r.extend(s); r }
pub fn framed(first: u8, body: &[u8]) -> Vec<u8> { let mut r = vec![first]; r.extend(enc_len(body.len())); r.extend(body); r }
pub fn encode(p: &P) -> Vec<u8> {
    let mut b = vec![];
    let first = match p {
        P::Connect { flags, ka, cid, wt, wm, user, pass } => {
            b.extend(st(b"MQTT"));
            b.push(4);
            b.push(*flags);
            b.extend(ka.to_be_bytes());
            b.extend(st(cid));
            for x in [wt, wm, user, pass] { if let Some(x) = x { b.extend(st(x)); } }
            0x10
        }
        P::Connack { flags, code } => { b.push(*flags); b.push(*code); 0x20 }
        P::Publish { flags, topic, id, payload } => {
            b.extend(st(topic));
            if let Some(i) = id { b.extend(i.to_be_bytes()); }
            b.extend(payload);
            *flags
        }
        P::Ack { kind, id } => { b.extend(id.to_be_bytes()); if *kind == 6 { 0x62 } else { kind << 4 } }
        P::Subscribe { id, filters } => {
            b.extend(id.to_be_bytes());
            for (f, q) in filters { b.extend(st(f)); b.push(*q); }
            0x82
        }
        P::Suback { id, codes } => { b.extend(id.to_be_bytes()); b.extend(codes); 0x90 }
        P::Unsubscribe { id, filters } => {
            b.extend(id.to_be_bytes());
            for f in filters { b.extend(st(f)); }
            0xA2
        }
        P::Bare { kind } => kind << 4,
    };
    framed(first, &b)
}

// ---- topics ----
pub fn levels(s: &str) -> Vec<&str> { s.split('/').collect() }
fn fmatch(p: &[&str], t: &[&str]) -> bool {
    match p.first() {
        None => t.is_empty(),
        Some(&"#") if p.len() == 1 => true,
        Some(x) => !t.is_empty() && (*x == "+" || *x == t[0]) && fmatch(&p[1..], &t[1..]),
    }
}
pub fn matches(filter: &str, topic: &str) -> bool {
    let (p, t) = (levels(filter), levels(topic));
    fmatch(&p, &t) && !(t[0].starts_with('$') && (p[0] == "#" || p[0] == "+"))
}
pub fn valid_filter(f: &str) -> bool {
    let l = levels(f);
    !f.is_empty() && l.len() <= 1024 + usize::from(l[0] == "$share") && l.iter().enumerate().all(|(i, x)| if *x == "#" { i + 1 == l.len() } else { *x == "+" || !x.contains(['#', '+']) })
}

// ---- the broker ----
#[derive(Clone, Debug)]
pub struct Sess { pub id: usize, pub slot: usize, pub clean: bool, pub last: u16 }
#[derive(Default, Clone, Debug)]
pub struct Model {
    pub sessions: BTreeMap<String, Sess>,
    pub subs: BTreeMap<String, BTreeMap<usize, u8>>,
    next: usize,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Delivery { pub slot: usize, pub topic: Vec<u8>, pub payload: Vec<u8>, pub qos: u8, pub id: u16 }
impl Model {
    /// (session present, slot of the connection that is replaced)
    pub fn connect(&mut self, slot: usize, cid: &str, clean: bool) -> (bool, Option<usize>) {
        let old = self.sessions.get(cid).map(|s| s.slot);
        if let Some(s) = self.sessions.get_mut(cid) {
            if !clean && !s.clean { s.slot = slot; return (true, old); }
        }
        self.next += 1;
        self.sessions.insert(cid.into(), Sess { id: self.next, slot, clean, last: 0 });
        (false, old)
    }
    pub fn disconnect(&mut self, slot: usize, cid: &str) {
        if self.sessions.get(cid).map_or(false, |s| s.clean && s.slot == slot) { self.sessions.remove(cid); }
    }
    pub fn subscribe(&mut self, cid: &str, f: &[(String, u8)]) -> Option<Vec<u8>> {
        let id = self.sessions.get(cid)?.id;
        Some(f.iter().map(|(f, q)| if valid_filter(f) { self.subs.entry(f.clone()).or_default().insert(id, *q); *q } else { 0x80 }).collect())
    }
    pub fn unsubscribe(&mut self, cid: &str, f: &[String]) -> bool {
        let id = match self.sessions.get(cid) { Some(s) => s.id, None => return false };
        for f in f { if let Some(m) = self.subs.get_mut(f) { m.remove(&id); } }
        true
    }
    pub fn publish(&mut self, topic: &str, q: u8, payload: &[u8]) -> Vec<Delivery> {
        let mut best: BTreeMap<usize, u8> = BTreeMap::new();
        for (f, m) in &self.subs {
            if matches(f, topic) { for (id, g) in m { let e = best.entry(*id).or_insert(0); *e = (*e).max(*g); } }
        }
        let mut out = vec![];
        for s in self.sessions.values_mut() {
            if let Some(g) = best.get(&s.id) {
                let qos = q.min(*g);
                if qos > 0 { s.last = if s.last == 65535 { 1 } else { s.last + 1 }; }
                out.push(Delivery { slot: s.slot, topic: topic.as_bytes().to_vec(), payload: payload.to_vec(), qos, id: if qos > 0 { s.last } else { 0 } });
            }
        }
        out
    }
}
