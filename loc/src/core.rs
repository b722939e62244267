//! Shared machinery: random numbers, the event log, the report, pending-operation tracking.
use std::{
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

pub type BoxFut = Pin<Box<dyn Future<Output = ()> + Send>>;

/// SplitMix64.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// In 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// In a..=b
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, percent: u64) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.us(items.len())]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            let j = self.us(i + 1);
            items.swap(i, j);
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93)).next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0100_0000_01b3);
    }
    h
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// One thread, virtual time: deterministic.
    Det,
    /// A multi-threaded runtime, real time.
    Mt(usize),
    /// The family builds its own runtimes and threads.
    Raw,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub ms: u64,
    pub who: u32,
    pub kind: &'static str,
    pub a: u64,
    pub b: u64,
    pub text: String,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub props: Vec<String>,
    pub sig: String,
    pub detail: String,
    pub family: String,
    pub case: u64,
    pub history: Vec<String>,
}

pub struct CxInner {
    pub mode: Mode,
    pub family: String,
    pub case: u64,
    events: Mutex<Vec<Ev>>,
    viol: Mutex<Vec<(Vec<&'static str>, String, String)>>,
    pending: Mutex<BTreeMap<u64, String>>,
    next: AtomicU64,
    stats: Mutex<BTreeMap<String, u64>>,
    start: tokio::time::Instant,
    start_real: std::time::Instant,
    trivial: AtomicBool,
}

#[derive(Clone)]
pub struct Cx(pub Arc<CxInner>);

pub struct Pending(Cx, u64);

impl Drop for Pending {
    fn drop(&mut self) {
        self.0 .0.pending.lock().unwrap().remove(&self.1);
    }
}

impl Cx {
    pub fn new(mode: Mode, family: &str, case: u64) -> Self {
        Cx(Arc::new(CxInner {
            mode,
            family: family.to_string(),
            case,
            events: Mutex::new(Vec::new()),
            viol: Mutex::new(Vec::new()),
            pending: Mutex::new(BTreeMap::new()),
            next: AtomicU64::new(1),
            stats: Mutex::new(BTreeMap::new()),
            start: tokio::time::Instant::now(),
            start_real: std::time::Instant::now(),
            trivial: AtomicBool::new(false),
        }))
    }
    pub fn det(&self) -> bool {
        self.0.mode == Mode::Det
    }
    /// Unique number, never 0.
    pub fn uid(&self) -> u64 {
        self.0.next.fetch_add(1, Ordering::SeqCst)
    }
    pub fn ms(&self) -> u64 {
        match self.0.mode {
            Mode::Det => self.0.start.elapsed().as_millis() as u64,
            _ => self.0.start_real.elapsed().as_millis() as u64,
        }
    }
    /// Appends an event, returning its position in the log.
    pub fn ev(&self, who: u32, kind: &'static str, a: u64, b: u64) -> usize {
        self.evt(who, kind, a, b, String::new())
    }
    pub fn evt(&self, who: u32, kind: &'static str, a: u64, b: u64, text: String) -> usize {
        let ms = self.ms();
        let mut ev = self.0.events.lock().unwrap();
        ev.push(Ev { ms, who, kind, a, b, text });
        ev.len() - 1
    }
    pub fn events(&self) -> Vec<Ev> {
        self.0.events.lock().unwrap().clone()
    }
    pub fn stat(&self, name: &str, n: u64) {
        *self.0.stats.lock().unwrap().entry(name.to_string()).or_default() += n;
    }
    /// Marks the case as one which observed nothing of interest.
    pub fn trivial(&self) {
        self.0.trivial.store(true, Ordering::SeqCst);
    }
    pub fn is_trivial(&self) -> bool {
        self.0.trivial.load(Ordering::SeqCst) || self.0.events.lock().unwrap().is_empty()
    }
    pub fn stats(&self) -> BTreeMap<String, u64> {
        self.0.stats.lock().unwrap().clone()
    }
    /// Records a violation of the properties, under a signature stable across seeds.
    pub fn fail(&self, props: &[&'static str], sig: &str, detail: impl Into<String>) {
        let mut v = self.0.viol.lock().unwrap();
        if v.len() < 50 {
            v.push((props.to_vec(), sig.to_string(), detail.into()));
        }
    }
    pub fn check(&self, ok: bool, props: &[&'static str], sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(props, sig, detail());
        }
        ok
    }
    /// Tracks an operation until the guard is dropped, to name what never completed.
    pub fn pend(&self, what: impl Into<String>) -> Pending {
        let id = self.uid();
        self.0.pending.lock().unwrap().insert(id, what.into());
        Pending(self.clone(), id)
    }
    pub fn pending(&self) -> Vec<String> {
        match self.0.pending.try_lock() {
            Ok(p) => p.values().cloned().collect(),
            Err(_) => vec![],
        }
    }
    pub fn violations(&self) -> Vec<Violation> {
        let v = self.0.viol.lock().unwrap().clone();
        if v.is_empty() {
            return vec![];
        }
        let history = self.history();
        v.into_iter()
            .map(|(props, sig, detail)| Violation {
                props: props.iter().map(|p| p.to_string()).collect(),
                sig,
                detail,
                family: self.0.family.clone(),
                case: self.0.case,
                history: history.clone(),
            })
            .collect()
    }
    pub fn history(&self) -> Vec<String> {
        let evs = match self.0.events.try_lock() {
            Ok(e) => e.clone(),
            Err(_) => vec![],
        };
        let n = evs.len();
        evs.iter()
            .enumerate()
            .filter(|(i, _)| *i < 400 || *i + 400 > n)
            .map(|(i, e)| {
                let mut s = String::new();
                let _ = write!(s, "{i} t={} #{} {} {} {} {}", e.ms, e.who, e.kind, e.a, e.b, e.text);
                s
            })
            .collect()
    }
    /// Hash of the order of events: two cases with the same value saw the same interleaving.
    pub fn fingerprint(&self) -> u64 {
        let mut h = hash_str(&self.0.family);
        for e in self.0.events.lock().unwrap().iter() {
            h = mix(h, hash_str(e.kind) ^ ((e.who as u64) << 40) ^ e.a.wrapping_mul(31) ^ (e.b << 20));
        }
        h
    }

    /// A random pause: nothing, some yields, or a sleep.
    pub async fn pause(&self, r: &mut Rng) {
        match r.below(10) {
            0..=3 => {}
            4..=6 => {
                for _ in 0..r.range(1, 4) {
                    tokio::task::yield_now().await;
                }
            }
            7 | 8 => self.sleep(r.range(1, 5)).await,
            _ => self.sleep(r.range(5, 30)).await,
        }
    }
    /// Sleeps n virtual milliseconds, or n*20 real microseconds.
    pub async fn sleep(&self, n: u64) {
        match self.0.mode {
            Mode::Det => tokio::time::sleep(Duration::from_millis(n)).await,
            _ => tokio::time::sleep(Duration::from_micros(n * 20)).await,
        }
    }
    /// Lets every other task run until all are waiting.
    pub async fn settle(&self) {
        match self.0.mode {
            Mode::Det => tokio::time::sleep(Duration::from_millis(1000)).await,
            _ => tokio::time::sleep(Duration::from_millis(3)).await,
        }
    }
    pub fn dur(&self, n: u64) -> Duration {
        match self.0.mode {
            Mode::Det => Duration::from_millis(n),
            _ => Duration::from_micros(n * 20),
        }
    }
}

/// Results over all cases of a run.
#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub trivial: u64,
    pub distinct: HashSet<u64>,
    pub per_family: BTreeMap<String, u64>,
    pub stats: BTreeMap<String, u64>,
    pub events: u64,
    pub samples: Vec<serde_json::Value>,
    pub violations: Vec<Violation>,
    pub other: BTreeMap<String, u64>,
    pub inconclusive: Vec<String>,
}

impl Report {
    pub fn to_json(&self, prop: &str) -> serde_json::Value {
        serde_json::json!({
            "property": prop,
            "evaluations": self.evaluations,
            "trivial": self.trivial,
            "distinct": self.distinct.iter().map(|h| format!("{h:016x}")).collect::<Vec<_>>(),
            "per_family": self.per_family,
            "stats": self.stats,
            "events": self.events,
            "samples": self.samples,
            "violations": self.violations.iter().map(|v| serde_json::json!({
                "props": v.props, "sig": v.sig, "detail": v.detail, "family": v.family,
                "case": v.case.to_string(), "history": v.history,
            })).collect::<Vec<_>>(),
            "other": self.other,
            "inconclusive": self.inconclusive,
        })
    }
}
