//! Replays inputs on the code of /repo and compares with what the standard says.
//!   run <property> <seconds> <seed>     search; prints one JSON line
//!   one <property> <case>               run a single case; exit 1 when it fails
pub mod app;
pub mod codec;
pub mod conn;
pub mod e2e;
pub mod gen;
pub mod ord;
pub mod oracle;
pub mod table;
use std::collections::HashSet;
use std::io::Write;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Fail { pub list: Vec<(Vec<String>, String)> }
impl Fail { pub fn add(&mut self, tags: &[&str], what: String) { self.list.push((tags.iter().map(|t| t.to_string()).collect(), what)); } }

static CURRENT: Mutex<Option<(String, Instant)>> = Mutex::new(None);
fn exec(case: &str) -> Fail {
    let mut f = Fail { list: vec![] };
    let (kind, rest) = case.split_once(' ').unwrap_or((case, ""));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match kind {
        "table" => table::exec(rest, &mut f),
        "app" => app::run(rest, &mut if rest.starts_with("N;") { app::Direct::with_room(1) } else { app::Direct::new() }, &mut f),
        "tcp" => {
            static N: Mutex<usize> = Mutex::new(0);
            let tag = { let mut n = N.lock().unwrap(); *n += 1; format!("{}", *n) };
            let mut t = e2e::Tcp::new(server(), &tag);
            app::run(rest, &mut t, &mut f);
            t.problem(&mut f);
        }
        "conn" => conn::exec(rest, &mut f),
        "ord" => ord::exec(rest, &mut f),
        _ => codec::exec(&case.split(' ').collect::<Vec<_>>(), &mut f),
    }));
    if r.is_err() {
        let tags: &[&str] = match kind { "table" => &["C10", "C11", "C12"], "app" | "tcp" => &["C10", "C11", "C12", "C13", "C14", "C15"], "conn" => &["C16", "C17", "C18", "C19", "C20", "C21"], "ord" => &["C23"], _ => &["C02", "C08"] };
        f.add(tags, "panic".into());
    }
    f
}
fn server() -> u16 {
    static PORT: Mutex<u16> = Mutex::new(0);
    let mut p = PORT.lock().unwrap();
    if *p == 0 {
        let port = std::env::var("VP_PORT").ok().and_then(|p| p.parse().ok()).unwrap_or(1883);
        std::thread::spawn(|| { let _ = crate::broker_main(); });
        let end = Instant::now() + Duration::from_secs(10);
        while Instant::now() < end && e2e::Conn::open(port).is_none() { std::thread::sleep(Duration::from_millis(20)); }
        *p = port;
        log::set_max_level(log::LevelFilter::Trace);
    }
    *p
}
fn esc(s: &str) -> String { s.chars().flat_map(|c| match c { '"' => "\\\"".chars().collect::<Vec<_>>(), '\\' => "\\\\".chars().collect(), c if (c as u32) < 32 => format!("\\u{:04x}", c as u32).chars().collect(), c => vec![c] }).collect() }
fn kinds(prop: &str) -> Vec<(&'static str, usize)> {
    // (case kind, share of the time in tenths)
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C08" | "C09" => vec![("codec", 10)],
        "C07" => vec![("codec", 6), ("conn", 4)],
        "C10" => vec![("table", 6), ("app", 2), ("tcp", 2)],
        "C11" | "C12" => vec![("table", 5), ("app", 3), ("tcp", 2)],
        "C13" => vec![("app", 7), ("tcp", 3)],
        "C14" | "C15" => vec![("app", 6), ("tcp", 4)],
        "C23" => vec![("ord", 10)],
        _ => vec![("conn", 10)],
    }
}
fn fixed(prop: &str, kind: &str) -> Vec<String> {
    match kind {
        "codec" => codec::fixed(prop),
        "table" => table::fixed(prop),
        "ord" => ord::fixed().into_iter().map(|s| format!("ord {}", s)).collect(),
        "app" => app::fixed(prop).into_iter().map(|s| format!("app {}", s)).collect(),
        "tcp" => app::fixed(prop).into_iter().filter(|s| !s.contains("X,") && !s.contains("70000") && !s.contains("65534")).map(|s| format!("tcp {}", s)).collect(),
        _ => conn::fixed(prop).into_iter().map(|s| format!("conn {}", s)).collect(),
    }
}
fn random(prop: &str, kind: &str, r: &mut gen::Rng) -> String {
    match kind {
        "codec" => codec::random(prop, r),
        "table" => table::random(prop, r),
        "ord" => format!("ord {}", ord::random(r)),
        "app" => format!("app {}", app::random(prop, r, false)),
        "tcp" => format!("tcp {}", app::random(prop, r, true)),
        _ => format!("conn {}", conn::random(prop, r)),
    }
}
fn finish(out: String, code: i32) -> ! { let _ = writeln!(std::io::stdout(), "{}", out); let _ = std::io::stdout().flush(); std::process::exit(code) }
fn report(prop: &str, n: usize, distinct: usize, by: &[(String, usize)], samples: &[String], fail: Option<(&str, &str)>, other: usize) -> String {
    let s: Vec<String> = samples.iter().map(|s| format!("\"{}\"", esc(&s.chars().take(300).collect::<String>()))).collect();
    let b: Vec<String> = by.iter().map(|(k, n)| format!("\"{}\":{}", k, n)).collect();
    let f = match fail { None => "null".into(), Some((c, w)) => format!("{{\"case\":\"{}\",\"what\":\"{}\"}}", esc(c), esc(w)) };
    format!("{{\"property\":\"{}\",\"evaluations\":{},\"distinct\":{},\"by_kind\":{{{}}},\"other_failures\":{},\"samples\":[{}],\"fail\":{}}}", prop, n, distinct, b.join(","), other, s.join(","), f)
}
pub fn run() {
    let a: Vec<String> = std::env::args().collect();
    // there is no logger, but what is logged is computed, as in main
    log::set_max_level(log::LevelFilter::Trace);
    if a[1] == "one" {
        let case = a[3..].join(" ");
        std::thread::spawn(|| { std::thread::sleep(Duration::from_secs(60)); finish("the case does not end".into(), 1) });
        let f = exec(&case);
        let mine: Vec<&(Vec<String>, String)> = f.list.iter().filter(|(t, _)| a[2] == "all" || t.contains(&a[2])).collect();
        for (t, w) in &f.list { println!("{} {}", t.join(","), w); }
        std::process::exit(if mine.is_empty() { 0 } else { 1 });
    }
    std::panic::set_hook(Box::new(|_| {}));
    let (prop, secs, seed): (String, f64, u64) = (a[2].clone(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let p2 = prop.clone();
    // a case that hangs is a failing case
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let c = CURRENT.lock().unwrap().clone();
        if let Some((c, t)) = c { if t.elapsed() > Duration::from_secs(40) { finish(report(&p2, 0, 0, &[], &[], Some((&c, "the case does not end")), 0), 0); } }
    });
    let mut seen: HashSet<u64> = HashSet::new();
    let (mut n, mut other) = (0usize, 0usize);
    let mut samples = vec![];
    let mut by = vec![];
    let h = |s: &str| { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h); h.finish() };
    for (kind, share) in kinds(&prop) {
        let mut rng = gen::Rng(seed.wrapping_mul(1_000_003).wrapping_add(h(&format!("{}{}", prop, kind))));
        let mut list = fixed(&prop, kind).into_iter();
        let mut end = None;
        let hard = Instant::now() + Duration::from_secs_f64(secs * 3.0);
        let start = n;
        let mut k = 0usize;
        loop {
            let case = match list.next() { Some(c) => { if Instant::now() > hard { break; } c } None => { let e = *end.get_or_insert_with(|| Instant::now() + Duration::from_secs_f64(secs * share as f64 / 10.0)); if Instant::now() > e { break; } random(&prop, kind, &mut rng) } };
            *CURRENT.lock().unwrap() = Some((case.clone(), Instant::now()));
            let f = exec(&case);
            n += 1;
            k += 1;
            if seen.insert(h(&case)) && (k == 1 || k == 50 || k == 2000) { samples.push(case.clone()); }
            for (t, w) in &f.list {
                if t.contains(&prop) { by.push((kind.to_string(), n - start)); finish(report(&prop, n, seen.len(), &by, &samples, Some((&case, w)), other), 0); }
                other += 1;
            }
        }
        by.push((kind.to_string(), n - start));
    }
    *CURRENT.lock().unwrap() = None;
    finish(report(&prop, n, seen.len(), &by, &samples, None, other), 0);
}
