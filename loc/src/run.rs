//! Runs the cases of the families, watches over them and writes the report.
use crate::core::*;
use std::{
    panic::AssertUnwindSafe,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use futures::FutureExt;

pub enum Run {
    Async(fn(Cx, Rng) -> BoxFut),
    Raw(fn(Cx, Rng)),
}

pub struct Family {
    pub name: &'static str,
    pub props: &'static [&'static str],
    pub mode: Mode,
    pub run: Run,
    /// Cases per round.
    pub weight: u32,
}

pub fn det(name: &'static str, props: &'static [&'static str], weight: u32, f: fn(Cx, Rng) -> BoxFut) -> Family {
    Family { name, props, mode: Mode::Det, run: Run::Async(f), weight }
}
pub fn mt(name: &'static str, props: &'static [&'static str], weight: u32, workers: usize, f: fn(Cx, Rng) -> BoxFut) -> Family {
    Family { name, props, mode: Mode::Mt(workers), run: Run::Async(f), weight }
}
pub fn raw(name: &'static str, props: &'static [&'static str], weight: u32, f: fn(Cx, Rng)) -> Family {
    Family { name, props, mode: Mode::Raw, run: Run::Raw(f), weight }
}

thread_local! {
    /// The next panic of this thread is intended.
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

static UNEXPECTED: Mutex<Vec<(String, String, bool)>> = Mutex::new(Vec::new());

fn install_panic_hook(expected: fn(&(dyn std::any::Any + Send)) -> bool) {
    std::panic::set_hook(Box::new(move |info| {
        // The next panic of this thread is intended
        if QUIET.with(|q| q.replace(false)) {
            return;
        }
        let p = info.payload();
        let msg = if let Some(s) = p.downcast_ref::<&'static str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if expected(p) {
            return;
        } else {
            "<non-string>".to_string()
        };
        if msg.starts_with("vp") {
            return;
        }
        let (file, line) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let ours = file.starts_with("src/");
        let short: String = file.rsplit('/').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/");
        let head: String = msg.chars().take(60).filter(|c| !c.is_ascii_digit()).collect();
        if let Ok(mut u) = UNEXPECTED.lock() {
            if u.len() < 100 {
                u.push((format!("panic:{short}:{head}"), format!("{file}:{line}: {msg}"), ours));
            }
        }
    }));
}

struct Shared {
    report: Mutex<Report>,
    prop: String,
    current: Mutex<Option<(Cx, Instant, u64)>>,
    case_no: AtomicU64,
    done: AtomicBool,
}

fn fold(shared: &Shared, cx: &Cx, extra: Option<(String, String)>) {
    let prop = &shared.prop;
    let mut vs = cx.violations();
    if let Some((sig, detail)) = extra {
        vs.push(Violation {
            props: vec!["*".into()],
            sig,
            detail,
            family: cx.0.family.clone(),
            case: cx.0.case,
            history: cx.history(),
        });
    }
    let mut inconclusive = vec![];
    for (sig, detail, ours) in std::mem::take(&mut *UNEXPECTED.lock().unwrap()) {
        if ours {
            inconclusive.push(format!("{}:{} harness {detail}", cx.0.family, cx.0.case));
        } else {
            vs.push(Violation {
                props: vec!["*".into()],
                sig,
                detail,
                family: cx.0.family.clone(),
                case: cx.0.case,
                history: cx.history(),
            });
        }
    }
    let events = cx.events();
    let mut r = shared.report.lock().unwrap();
    r.evaluations += 1;
    r.events += events.len() as u64;
    *r.per_family.entry(cx.0.family.clone()).or_default() += 1;
    for (k, n) in cx.stats() {
        *r.stats.entry(k).or_default() += n;
    }
    if cx.is_trivial() {
        r.trivial += 1;
    } else {
        r.distinct.insert(cx.fingerprint());
        if r.per_family[&cx.0.family] == 2 && r.samples.len() < 6 {
            let h = cx.history();
            r.samples.push(serde_json::json!({
                "family": cx.0.family, "case": cx.0.case.to_string(), "events": events.len(),
                "log": h.iter().take(25).collect::<Vec<_>>(),
            }));
        }
    }
    r.inconclusive.extend(inconclusive);
    for v in vs {
        if v.props.iter().any(|p| p == prop || p == "*") {
            if !r.violations.iter().any(|w| w.sig == v.sig) && r.violations.len() < 30 {
                r.violations.push(v);
            }
        } else {
            *r.other.entry(format!("{}:{}", v.props.join("+"), v.sig)).or_default() += 1;
        }
    }
}

fn run_case(shared: &Shared, fam: &Family, case: u64) {
    let cx = Cx::new(fam.mode, fam.name, case);
    let rng = Rng::new(mix(case, hash_str(fam.name)));
    *shared.current.lock().unwrap() = Some((cx.clone(), Instant::now(), cpu_ms()));
    shared.case_no.fetch_add(1, Ordering::SeqCst);
    let mut extra = None;
    match (&fam.run, fam.mode) {
        (Run::Raw(f), _) => {
            let _ = std::panic::catch_unwind(AssertUnwindSafe(|| f(cx.clone(), rng)));
        }
        (Run::Async(f), Mode::Det) => {
            let rt = tokio::runtime::Builder::new_current_thread()
                .enable_time()
                .start_paused(true)
                .build()
                .unwrap();
            let res = std::panic::catch_unwind(AssertUnwindSafe(|| {
                rt.block_on(async {
                    // Rebased on the runtime's clock
                    let cx2 = Cx::new(fam.mode, fam.name, case);
                    *shared.current.lock().unwrap() = Some((cx2.clone(), Instant::now(), cpu_ms()));
                    let fut = AssertUnwindSafe(f(cx2.clone(), rng)).catch_unwind();
                    let r = tokio::time::timeout(Duration::from_secs(24 * 3600), fut).await;
                    (cx2, r.is_err())
                })
            }));
            if let Ok((cx2, hung)) = res {
                if hung {
                    let mut p = cx2.pending();
                    let kinds: std::collections::BTreeSet<String> = p
                        .iter()
                        .map(|s| s.chars().filter(|c| !c.is_ascii_digit()).take(40).collect())
                        .collect();
                    p.truncate(20);
                    extra = Some((
                        format!("hang:{}:{}", fam.name, kinds.into_iter().take(3).collect::<Vec<_>>().join(",")),
                        format!("nothing can run any more, still waiting: {}", p.join("; ")),
                    ));
                }
                fold(shared, &cx2, extra);
            } else {
                fold(shared, &cx, None);
            }
            rt.shutdown_background();
            *shared.current.lock().unwrap() = None;
            return;
        }
        (Run::Async(f), Mode::Mt(n)) => {
            let rt = tokio::runtime::Builder::new_multi_thread()
                .worker_threads(n)
                .enable_time()
                .build()
                .unwrap();
            let fut = f(cx.clone(), rng);
            let _ = rt.block_on(rt.spawn(AssertUnwindSafe(fut).catch_unwind()));
            rt.shutdown_background();
        }
        _ => unreachable!(),
    }
    fold(shared, &cx, extra);
    *shared.current.lock().unwrap() = None;
}

pub fn cpu_ms() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    (t(11) + t(12)) * 10
}

/// The number of context switches of every thread but this one, and whether all of them are sleeping.
fn threads_state() -> (Vec<(String, u64)>, bool) {
    let me = std::fs::read_link("/proc/thread-self").map(|p| p.to_string_lossy().rsplit('/').next().unwrap_or("").to_string()).unwrap_or_default();
    let mut v = Vec::new();
    let mut idle = true;
    for e in std::fs::read_dir("/proc/self/task").into_iter().flatten().flatten() {
        let tid = e.file_name().to_string_lossy().to_string();
        if tid == me {
            continue;
        }
        let s = std::fs::read_to_string(e.path().join("status")).unwrap_or_default();
        let mut sw = 0;
        for l in s.lines() {
            if let Some(x) = l.strip_prefix("State:") {
                if !x.trim().starts_with('S') {
                    idle = false;
                }
            }
            if l.contains("ctxt_switches") {
                sw += l.split_whitespace().last().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            }
        }
        v.push((tid, sw));
    }
    v.sort();
    (v, idle)
}

fn emit(shared: &Shared, out: &str) {
    let r = shared.report.lock().unwrap();
    let s = serde_json::to_string(&r.to_json(&shared.prop)).unwrap();
    if out == "-" {
        println!("{s}");
    } else {
        std::fs::write(out, s).unwrap();
    }
}

/// Decides that a case is stuck: by quiescence (no thread has run for a while and none wants to), or by
/// processor time (a thousand times what a case needs). Neither depends on how loaded the machine is.
fn watchdog(shared: Arc<Shared>, out: String) {
    let mut last: Option<(u64, Vec<(String, u64)>, Instant)> = None;
    loop {
        std::thread::sleep(Duration::from_millis(500));
        if shared.done.load(Ordering::SeqCst) {
            return;
        }
        let cur = shared.current.lock().unwrap().clone();
        let Some((cx, began, cpu0)) = cur else {
            last = None;
            continue;
        };
        let no = shared.case_no.load(Ordering::SeqCst);
        let mut stuck = None;
        if began.elapsed() > Duration::from_secs(4) {
            let (st, idle) = threads_state();
            match &last {
                Some((n, s, since)) if *n == no && *s == st && idle => {
                    if since.elapsed() > Duration::from_secs(8) {
                        stuck = Some("deadlock");
                    }
                }
                _ => last = idle.then(|| (no, st, Instant::now())),
            }
            if cpu_ms().saturating_sub(cpu0) > 90_000 {
                stuck = Some("livelock");
            }
        }
        if let Some(what) = stuck {
            let mut p = cx.pending();
            let kinds: std::collections::BTreeSet<String> =
                p.iter().map(|s| s.chars().filter(|c| !c.is_ascii_digit()).take(40).collect()).collect();
            p.truncate(20);
            fold(
                &shared,
                &cx,
                Some((
                    format!("{what}:{}:{}", cx.0.family, kinds.into_iter().take(3).collect::<Vec<_>>().join(",")),
                    format!("{what}: still waiting: {}", p.join("; ")),
                )),
            );
            emit(&shared, &out);
            std::process::exit(0);
        }
    }
}

pub fn main(all: fn() -> Vec<Family>, expected: fn(&(dyn std::any::Any + Send)) -> bool) {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let cmd = args.get(1).map(String::as_str).unwrap_or("");
    match cmd {
        "list" => {
            for f in all() {
                println!("{} {:?} {}", f.name, f.props, f.weight);
            }
        }
        "run" => {
            let prop = args.get(2).cloned().expect("property");
            let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let shard: u64 = opt("--shard").and_then(|s| s.parse().ok()).unwrap_or(0);
            let ms: u64 = opt("--ms").and_then(|s| s.parse().ok()).unwrap_or(3000);
            let rounds: u64 = opt("--rounds").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
            let only = opt("--only");
            let one: Option<u64> = opt("--case").and_then(|s| s.parse().ok());
            let out = opt("--out").unwrap_or("-".into());
            install_panic_hook(expected);
            let shared = Arc::new(Shared {
                report: Mutex::default(),
                prop: prop.clone(),
                current: Mutex::new(None),
                case_no: AtomicU64::new(0),
                done: AtomicBool::new(false),
            });
            if !cfg!(miri) {
                let (s, o) = (shared.clone(), out.clone());
                std::thread::spawn(move || watchdog(s, o));
            }
            let fams: Vec<Family> = all()
                .into_iter()
                .filter(|f| f.props.contains(&prop.as_str()) && only.as_deref().map_or(true, |o| f.name == o))
                .collect();
            let begin = Instant::now();
            'outer: for round in 0..rounds {
                for f in &fams {
                    // Each family gets the same time, whatever a case of it takes
                    let slice = Instant::now();
                    for k in 0..f.weight as u64 * 20 {
                        if k > 0 && !cfg!(miri) && slice.elapsed() > Duration::from_millis(80) {
                            break;
                        }
                        if cfg!(miri) && k >= f.weight as u64 {
                            break;
                        }
                        // The budget ends the run after one full round
                        if round > 0 && begin.elapsed() > Duration::from_millis(ms) {
                            break 'outer;
                        }
                        let case = one.unwrap_or_else(|| mix(mix(seed, shard), mix(round, k)) % 1_000_000_000_000);
                        run_case(&shared, f, case);
                        if shared.report.lock().unwrap().violations.len() >= 12 {
                            break 'outer;
                        }
                    }
                }
                if one.is_some() || fams.is_empty() {
                    break;
                }
            }
            shared.done.store(true, Ordering::SeqCst);
            emit(&shared, &out);
            std::process::exit(0);
        }
        _ => {
            eprintln!("usage: vloc run <property> [--seed N] [--shard N] [--ms N] [--only family] [--case N] [--out file] | list");
            std::process::exit(2);
        }
    }
}
