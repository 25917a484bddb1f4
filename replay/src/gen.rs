//! Case generators. A case is a line of text, so that it can be written down and run again.
use super::oracle::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}
pub fn hex(b: &[u8]) -> String { if b.is_empty() { "-".into() } else { b.iter().map(|x| format!("{:02x}", x)).collect() } }
pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return vec![]; }
    // "xx*n" repeats a byte
    if let Some((b, n)) = s.split_once('*') { return vec![u8::from_str_radix(b, 16).unwrap(); n.parse().unwrap()]; }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn text(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(12) { 0 => 0, 1 => 127, 2 => 128, 3 => 255 + r.below(3), 4 => 300, 5 if r.chance(30) => *r.pick(&[1000, 16383, 32768, 65533]), _ => r.below(max) };
    let mut s = String::new();
    if n < 60_000 && r.chance(12) { s.push(*r.pick(&['\u{feff}', ' ', '\t', '\n', '\u{a0}', '\u{200b}', '"', '$', '/', '.'])); }
    while s.len() < n { s.push(*r.pick(&['a', 'b', '/', 'é', '$', ' ', '\u{1}', '漢', 'Z', '~', 'A', 'q', 'ß', 'İ', '\u{301}', '\u{feff}', '\u{85}', '\u{fffd}', '𝄞', '\u{7f}', '0'])); }
    if n < 60_000 && r.chance(12) { s.push(*r.pick(&['\u{feff}', ' ', '\t', '\n', '\u{a0}', '\u{200b}', '"', '$', '/', '.'])); }
    s.into_bytes()
}
pub fn bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(8) { 0 => 0, 1 => 256, 2 => 127, 3 if r.chance(40) => *r.pick(&[1000, 4096, 16384, 32767, 65535]), _ => r.below(max) };
    (0..n).map(|_| *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0x23, 0x2b, 0xc3, 0x28, 0x0a])).collect()
}
/// payloads are not limited by a 16 bit length
pub fn payload(r: &mut Rng) -> Vec<u8> {
    if r.chance(200) { let n = *r.pick(&[65536, 70000, 131072, 200000]); return (0..n).map(|i| (i * 7 + i / 256) as u8).collect(); }
    bytes(r, 40)
}
/// mostly short lists
pub fn count(r: &mut Rng) -> usize { match r.below(40) { 0 => 5 + r.below(60), 1 if r.chance(10) => 300, _ => 1 + r.below(4) } }
pub fn id(r: &mut Rng) -> u16 { *r.pick(&[1, 2, 255, 256, 257, 0x1234, 0x7fff, 0x8000, 65535, 0x0100, 0xff00]) }
pub fn filter_text(r: &mut Rng) -> Vec<u8> {
    match r.below(4) { 0 => text(r, 20), _ => { let n = 1 + r.below(4); (0..n).map(|_| *r.pick(&["a", "+", "#", "", "bb", "$x"])).collect::<Vec<_>>().join("/").into_bytes() } }
}
pub fn packet(r: &mut Rng, kind: u8) -> P {
    match kind {
        1 => {
            let mut f = (r.next() as u8) & 0xFE;
            if f & 4 == 0 { f &= !0x38; }
            if f & 0x18 == 0x18 { f &= !0x10; }
            if f & 0x80 == 0 { f &= !0x40; }
            let cid = if f & 2 != 0 && r.chance(3) { vec![] } else { let mut t = text(r, 24); if t.is_empty() { t.push(b'c'); } t };
            P::Connect {
                flags: f, ka: id(r) - 1, cid,
                wt: if f & 4 != 0 { Some(text(r, 12)) } else { None },
                wm: if f & 4 != 0 { Some(bytes(r, 12)) } else { None },
                user: if f & 128 != 0 { Some(text(r, 12)) } else { None },
                pass: if f & 64 != 0 { Some(bytes(r, 12)) } else { None },
            }
        }
        2 => P::Connack { flags: r.below(2) as u8, code: r.below(6) as u8 },
        3 => {
            let q = r.below(3) as u8;
            let mut topic: Vec<u8> = text(r, 30);
            topic.retain(|c| *c != b'#' && *c != b'+');
            if topic.is_empty() { topic.push(b't'); }
            P::Publish { flags: 0x30 | q << 1 | (r.below(2) as u8) << 3 | r.below(2) as u8, topic, id: if q > 0 { Some(id(r)) } else { None }, payload: payload(r) }
        }
        8 => { let n = count(r); P::Subscribe { id: id(r), filters: { let same = r.chance(6).then(|| filter_text(r)); (0..n).map(|_| (match &same { Some(f) if r.chance(2) => f.clone(), _ => filter_text(r) }, r.below(3) as u8)).collect() } } }
        9 => { let n = count(r) - 1; P::Suback { id: id(r), codes: (0..n).map(|_| *r.pick(&[0, 1, 2, 0x80])).collect() } }
        10 => { let n = count(r); P::Unsubscribe { id: id(r), filters: (0..n).map(|_| filter_text(r)).collect() } }
        12 | 13 | 14 => P::Bare { kind },
        k => P::Ack { kind: k, id: id(r) },
    }
}
/// change a valid packet: a byte, the flags, a cut, an extra byte, a length
pub fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    // split off the header, so that the remaining length can stay right
    let hl = 1 + match dec_len(&b[1..]) { Len::Value(_, n) => n, _ => 0 };
    let mut body = v[hl..].to_vec();
    match r.below(10) {
        9 => { let mut o = vec![v[0]]; let l = enc_len(body.len()); o.extend(&l); for _ in 0..1 + r.below(3) { let k = o.len() - 1; o[k] |= 128; o.push(0); } o.extend(body); return o; }
        0 => { v[0] ^= 1 << r.below(8); return v; }
        1 => { let i = r.below(v.len()); v[i] ^= 1 << r.below(8); return v; }
        2 => { let n = r.below(v.len() + 1); v.truncate(n); return v; }
        3 => { v.push(*r.pick(&[0, 0x30, 0xff])); return v; }
        4 => { let n = body.len(); let m = if r.chance(2) { n + 1 + r.below(3) } else { n.saturating_sub(1 + r.below(3)) };
               let mut o = vec![v[0]]; o.extend(enc_len(m)); o.extend(body); return o; }
        5 => { let n = r.below(body.len() + 1); body.truncate(n); }
        6 => { body.push(*r.pick(&[0, 1, 3, 0x80])); }
        7 => { if !body.is_empty() { let i = r.below(body.len()); body[i] = *r.pick(&[0, 1, 2, 3, 0x23, 0x2b, 0x80, 0xff, 0xc0, 0xed]); } }
        _ => { if body.len() > 1 { let i = r.below(body.len()); body.remove(i); } }
    }
    framed(v[0], &body)
}
const LEVELS: [&str; 5] = ["a", "b", "", "$d", "ab"];
const RARE: [&str; 12] = ["A", "é", "e", " ", "a ", "$", "漢字", "$SYS", "aa", "0", "b$", "$share"];
fn level(r: &mut Rng) -> &'static str { if r.chance(8) { *r.pick(&RARE) } else { *r.pick(&LEVELS) } }
fn depth_of(r: &mut Rng, depth: usize) -> usize { if r.chance(12) { 1 + r.below(depth * 3) } else { 1 + r.below(depth) } }
pub fn topic(r: &mut Rng, depth: usize) -> String {
    loop {
        let n = depth_of(r, depth);
        let t = (0..n).map(|_| level(r)).collect::<Vec<_>>().join("/");
        if !t.is_empty() && !(t == "$share" || t.starts_with("$share/")) { return t; }
    }
}
pub fn filter(r: &mut Rng, depth: usize, bad: bool) -> String {
    loop {
        let n = depth_of(r, depth);
        let t = (0..n).map(|i| if r.chance(3) { "+" } else if i + 1 == n && r.chance(3) { "#" } else if bad && r.chance(10) { r.pick(&["#", "a+", "+#", "x#", "#a", "b+a", "++", "##"]) } else { level(r) }).collect::<Vec<_>>().join("/");
        if t == "$share" || t.starts_with("$share/") { continue; }
        if valid_filter(&t) || bad { return t; }
    }
}
