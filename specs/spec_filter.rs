// Topic filters and the table of subscriptions as mathematics (MQTT 3.1.1 section 4.7), and what the tree stores.
pub type Path = Seq<Seq<u8>>;
pub open spec fn PLUS() -> Seq<u8> { seq![0x2Bu8] }
pub open spec fn HASH() -> Seq<u8> { seq![0x23u8] }
pub open spec fn is1(s: Seq<u8>, c: u8) -> bool { s.len() == 1 && s[0] == c }
/// does the filter pat match the topic levels [4.7.1]
pub open spec fn fmatch(pat: Path, t: Path) -> bool
    decreases pat.len(),
{
    if pat.len() == 0 { t.len() == 0 }
    else if pat.len() == 1 && is1(pat[0], 0x23) { true }
    else { t.len() > 0 && (is1(pat[0], 0x2B) || pat[0] == t[0]) && fmatch(pat.sk(1), t.sk(1)) }
}
pub open spec fn dollar(t: Path) -> bool { t.len() > 0 && t[0].len() > 0 && t[0][0] == 0x24 }
/// [MQTT-4.7.2-1]: a filter that starts with a wildcard does not match a topic that starts with $
pub open spec fn tmatch(pat: Path, t: Path) -> bool {
    fmatch(pat, t) && pat.len() > 0 && (dollar(t) ==> !is1(pat[0], 0x23) && !is1(pat[0], 0x2B))
}
/// [MQTT-4.7.1-2] [MQTT-4.7.1-3] [MQTT-4.7.3-1]
pub open spec fn ok_level(levels: Path, i: int) -> bool {
    if is1(levels[i], 0x23) { i + 1 == levels.len() }
    else { is1(levels[i], 0x2B) || (!levels[i].contains(0x23) && !levels[i].contains(0x2B)) }
}
/// the filters that are accepted: those of section 4.7 with no more levels than the broker takes
/// (it refuses deeper ones: the tree is walked recursively, and the stack is finite)
pub spec const MAX_LEVELS: nat = 1024;
pub open spec fn ok_filter(levels: Path) -> bool {
    levels.len() <= MAX_LEVELS && !(levels.len() == 1 && levels[0].len() == 0) && forall|i: int| 0 <= i < levels.len() ==> ok_level(levels, i)
}
pub open spec fn is_share(s: Seq<u8>) -> bool {
    s.len() == 6 && s[0] == 0x24 && s[1] == 0x73 && s[2] == 0x68 && s[3] == 0x61 && s[4] == 0x72 && s[5] == 0x65
}
/// where a topic or filter lives: its levels, and the group of a "$share/<group>/.." one
pub open spec fn address(f: Seq<u8>) -> Option<(Path, Option<Seq<u8>>)> {
    let l = split_at(f, 0x2F);
    if is_share(l[0]) { if l.len() < 2 { None } else { Some((l.sk(1).update(0, Seq::<u8>::empty()), Some(l[1]))) } }
    else { Some((l, None)) }
}
