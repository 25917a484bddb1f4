//! The table of subscriptions against a map of filters.
use super::gen::*;
use super::oracle::*;
use super::Fail;
use crate::packets::enums::QosLevel;
use crate::topic_heir::{SubscriptionLeaf, SubscriptionTree};
use std::collections::BTreeMap;

pub fn qos(n: u8) -> QosLevel { match n { 0 => QosLevel::AtMost, 1 => QosLevel::AtLeast, _ => QosLevel::Exactly } }
pub fn exec(ops: &str, f: &mut Fail) {
    let (tx, _rx) = tokio::sync::mpsc::channel(1);
    let mut t = SubscriptionTree::new();
    let mut m: BTreeMap<String, BTreeMap<u128, u8>> = BTreeMap::new();
    let (mut ins, mut del) = (0, 0);
    for op in ops.split(';') {
        let w: Vec<&str> = op.split(',').collect();
        match w[0] {
            "I" => {
                let (id, q): (u128, u8) = (w[2].parse().unwrap(), w[3].parse().unwrap());
                let ok = valid_filter(w[1]);
                ins += 1;
                let r = t.insert(w[1].into(), SubscriptionLeaf::new(qos(q), id, tx.clone()));
                if r.is_ok() != ok { f.add(&["C13"], format!("{}: accepted {}, expected {}", op, r.is_ok(), ok)); }
                if ok { m.entry(w[1].into()).or_default().insert(id, q); }
            }
            "D" => {
                del += 1;
                let _ = t.delete(w[1].into(), w[2].parse().unwrap());
                if let Some(x) = m.get_mut(w[1]) { x.remove(&w[2].parse().unwrap()); }
            }
            "G" => {
                let mut best: BTreeMap<u128, u8> = BTreeMap::new();
                for (p, s) in &m { if matches(p, w[1]) { for (id, q) in s { let e = best.entry(*id).or_insert(0); *e = (*e).max(*q); } } }
                let got = t.get(w[1].into()).unwrap_or_default();
                let mut seen: BTreeMap<u128, u8> = BTreeMap::new();
                for (id, _, q) in &got {
                    if seen.insert(*id, *q as u8).is_some() { f.add(&["C12"], format!("{}: subscriber {} twice", op, id)); }
                    match best.get(id) {
                        None => f.add(&[if ins > 1 || del > 0 { "C11" } else { "C10" }, "C10"], format!("{}: subscriber {} has no matching filter in {:?}", op, id, m)),
                        Some(b) => if *b != *q as u8 { f.add(&["C12"], format!("{}: subscriber {} at QoS {}, expected {}", op, id, *q as u8, b)); },
                    }
                }
                for id in best.keys() { if !seen.contains_key(id) { f.add(&[if ins > 1 || del > 0 { "C11" } else { "C10" }, "C10"], format!("{}: subscriber {} is missing, filters {:?}", op, id, m)); } }
            }
            x => panic!("unknown table op {}", x),
        }
    }
}
pub fn fixed(prop: &str) -> Vec<String> {
    let mut v = vec![];
    if prop == "C10" || prop == "C11" || prop == "C12" {
        // many levels, and long ones
        for n in [15usize, 31, 63, 99, 127, 255, 511, 1000, 1022, 1030] { for sep in ["a/", "/"] {
            let d = sep.repeat(n);
            v.push(format!("table I,{d}+/z,1,1;I,{d}#,2,0;I,{d}b/z,3,2;I,{d}b,4,1;G,{d}b/z;G,{d}b;G,{d}c/z;G,{d}b/z/z;D,{d}+/z,1;D,{d}#,2;G,{d}b/z;G,{d}x/z;D,{d}b/z,3;G,{d}b/z;G,{d}b"));
        } }
        for n in [16usize, 64, 128, 256, 1024, 65000] {
            let l = "l".repeat(n);
            v.push(format!("table I,{l}/+,1,1;I,{l}x/+,2,0;I,+/{l},3,2;G,{l}/b;G,{l}x/b;G,{l}y/b;G,b/{l};G,b/{l}x;D,{l}/+,1;G,{l}/b;G,{l}x/b"));
        }
    }
    if prop == "C10" {
        // every filter against every topic of up to three levels of a small alphabet
        let ls = ["a", "", "$d", "+", "#"];
        let mut fs: Vec<String> = ls.iter().map(|s| s.to_string()).collect();
        let one = fs.clone();
        let mut two = vec![];
        for a in &one { for b in &one { two.push(format!("{}/{}", a, b)); } }
        let mut three = vec![];
        for a in &two { for b in &one { three.push(format!("{}/{}", a, b)); } }
        fs.extend(two);
        fs.extend(three);
        let ts: Vec<String> = fs.iter().filter(|t| !t.is_empty() && !t.contains(['+', '#'])).cloned().collect();
        for p in &fs { if valid_filter(p) { let g: Vec<String> = ts.iter().map(|t| format!("G,{}", t)).collect(); v.push(format!("table I,{},1,1;{}", p, g.join(";"))); } }
    }
    v
}
pub fn random(prop: &str, r: &mut Rng) -> String {
    let mut ops = vec![];
    match prop {
        "C10" => {
            let n = 1 + r.below(3);
            for i in 0..n { ops.push(format!("I,{},{},{}", filter(r, 5, false), i + 1, r.below(3))); }
            for _ in 0..4 { ops.push(format!("G,{}", topic(r, 5))); }
        }
        _ => {
            let n = 2 + r.below(10);
            let mut pool: Vec<String> = (0..3).map(|_| filter(r, 3, true)).collect();
            // a shared subscription and a plain one that end at the same node
            if r.chance(4) { let t = topic(r, 2); let g = *r.pick(&["g", "h"]); pool.push(format!("$share/{}/{}", g, t)); pool.push(format!("/{}", t)); }
            for _ in 0..n {
                let p = if r.chance(3) { filter(r, 3, true) } else { r.pick(&pool).clone() };
                if r.chance(4) { ops.push(format!("D,{},{}", p, 1 + r.below(3))); } else { ops.push(format!("I,{},{},{}", p, 1 + r.below(3), r.below(3))); }
                if r.chance(3) { ops.push(format!("G,{}", topic(r, 3))); }
            }
            for _ in 0..4 { ops.push(format!("G,{}", topic(r, 3))); }
            for p in &pool { if ok_topic(p.as_bytes()) { ops.push(format!("G,{}", p)); } }
        }
    }
    format!("table {}", ops.join(";"))
}
