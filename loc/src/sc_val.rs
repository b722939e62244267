//! Values: identities, errors and the registry.
use std::{
    borrow::Cow,
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    hash::{BuildHasher, Hash, Hasher, RandomState},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
};

use futures::FutureExt;
use kameo::{
    error::{ActorIDFromBytesError, BoxSendError, RegistryError},
    prelude::*,
    registry::{ActorRegistry, ACTOR_REGISTRY},
};

use crate::{core::*, det, mt, probe::*, raw, run::QUIET, Family};

pub fn families() -> Vec<Family> {
    vec![
        raw("identities", &["C22", "C26"], 30, identities),
        raw("identity-threads", &["C22", "C26"], 5, identity_threads),
        det("identity-refs", &["C22"], 20, |cx, r| identity_refs(cx, r).boxed()),
        raw("send-errors", &["C28", "C26"], 60, send_errors),
        raw("error-types", &["C28", "C26"], 30, error_types),
        det("captured-panics", &["C28"], 30, |cx, r| captured(cx, r).boxed()),
        raw("panic-threads", &["C28", "C26"], 3, panic_threads),
        raw("registry-seq", &["C21"], 20, registry_seq),
        raw("registry-threads", &["C21", "C26"], 10, registry_threads),
        mt("registry-tasks", &["C21"], 5, 4, |cx, r| registry_tasks(cx, r).boxed()),
    ]
}

// ---- identities

fn hash_of<T: Hash>(s: &RandomState, t: &T) -> u64 {
    let mut h = s.build_hasher();
    t.hash(&mut h);
    h.finish()
}

fn any_u64(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(4),
        1 => u64::MAX - r.below(3),
        2 => 1 << r.below(64),
        3 => r.below(1 << 16),
        4 => (r.below(256)) << (8 * r.below(8)),
        _ => r.next(),
    }
}

fn identities(cx: Cx, mut r: Rng) {
    let s = RandomState::new();
    for _ in 0..r.range(1, 30) {
        let n = any_u64(&mut r);
        let m = if r.chance(30) { n } else { any_u64(&mut r) };
        let (a, b) = (ActorID::new(n), ActorID::new(m));
        cx.ev(0, "id", n, m);
        cx.check((a == b) == (n == m), &["C22"], "equality", || format!("identities {n} and {m}"));
        cx.check(a.sequence_id() == n, &["C22"], "sequence", || format!("{n} gave {}", a.sequence_id()));
        if a == b {
            cx.check(hash_of(&s, &a) == hash_of(&s, &b), &["C22"], "hash", || format!("{n}"));
        } else {
            let set: HashSet<ActorID> = [a, b].into();
            cx.check(set.len() == 2, &["C22"], "set", || format!("{n} and {m}"));
        }
        let bytes = a.to_bytes();
        cx.check(bytes.len() >= 8, &["C22"], "bytes-short", || format!("{bytes:?}"));
        let back = ActorID::from_bytes(&bytes);
        cx.check(matches!(&back, Ok(x) if *x == a && x.sequence_id() == n), &["C22"], "bytes-round-trip", || format!("{n} gave {back:?}"));
        cx.check((bytes == b.to_bytes()) == (n == m), &["C22"], "bytes-collide", || format!("{n} and {m}"));
        // Through serializers which know bytes, and which only have sequences
        let json = serde_json::to_vec(&a).unwrap();
        let back: Result<ActorID, _> = serde_json::from_slice(&json);
        cx.check(matches!(&back, Ok(x) if *x == a), &["C22"], "json-round-trip", || format!("{n} gave {back:?}"));
        let mp = rmp_serde::to_vec(&a).unwrap();
        let back: Result<ActorID, _> = rmp_serde::from_slice(&mp);
        cx.check(matches!(&back, Ok(x) if *x == a), &["C22"], "msgpack-round-trip", || format!("{n} gave {back:?}"));
        let back: Result<(ActorID, ActorID), _> = rmp_serde::from_slice(&rmp_serde::to_vec(&(a, b)).unwrap());
        cx.check(matches!(&back, Ok((x, y)) if *x == a && *y == b), &["C22"], "msgpack-pair", || format!("{n}, {m} gave {back:?}"));
        let copy = a.clone();
        cx.check(copy == a && format!("{copy}{copy:?}") == format!("{a}{a:?}"), &["C22"], "clone", String::new);
        cx.check(n == m || format!("{a}") != format!("{b}") && format!("{a:?}") != format!("{b:?}"), &["C22"], "display", || format!("{n} and {m} are both shown as {a}"));
        cx.stat("round_trips", 4);
    }
    // Malformed bytes, of every length
    for len in 0..=12usize {
        let bytes: Vec<u8> = (0..len).map(|_| r.below(256) as u8).collect();
        let res = std::panic::catch_unwind(|| ActorID::from_bytes(&bytes));
        let ok = match &res {
            Ok(Err(ActorIDFromBytesError::MissingSequenceID)) => len < 8,
            Ok(Ok(id)) => len >= 8 && id.sequence_id() == u64::from_le_bytes(bytes[..8].try_into().unwrap()),
            #[allow(unreachable_patterns)]
            Ok(Err(_)) => len > 8,
            Err(_) => false,
        };
        cx.check(ok, &["C22"], "malformed-bytes", || format!("{bytes:?} gave {res:?}"));
        let mp = rmp_serde::to_vec(&Bytes(&bytes)).unwrap();
        let res = std::panic::catch_unwind(|| rmp_serde::from_slice::<ActorID>(&mp));
        let ok = match &res {
            Ok(Err(_)) => len != 8,
            Ok(Ok(_)) => len >= 8,
            Err(_) => false,
        };
        cx.check(ok, &["C22"], "malformed-serialized", || format!("{bytes:?} gave {res:?}"));
        let json = serde_json::to_vec(&bytes).unwrap();
        let res = std::panic::catch_unwind(|| serde_json::from_slice::<ActorID>(&json));
        let ok = match &res {
            Ok(Err(_)) => len != 8,
            Ok(Ok(_)) => len >= 8,
            Err(_) => false,
        };
        cx.check(ok, &["C22"], "malformed-json", || format!("{bytes:?} gave {res:?}"));
        cx.stat("malformed", 3);
    }
    for junk in ["null", "\"abc\"", "{}", "[256]", "[1,2,3", "-1", "[-1,0,0,0,0,0,0,0]"] {
        let res = std::panic::catch_unwind(|| serde_json::from_str::<ActorID>(junk));
        let text = junk.len() > 4 && junk.starts_with('"');
        cx.check(matches!(&res, Ok(Err(_))) || text && res.is_ok(), &["C22"], "malformed-json", || format!("{junk} gave {res:?}"));
    }
}

struct Bytes<'a>(&'a [u8]);
impl serde::Serialize for Bytes<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}

/// Identities made by many threads at once.
fn identity_threads(cx: Cx, mut r: Rng) {
    let n = r.range(2, 6);
    let per = if cfg!(miri) { 20 } else { r.range(1, 400) };
    let start = Arc::new(std::sync::Barrier::new(n as usize));
    let mut hs = vec![];
    for t in 0..n {
        let start = start.clone();
        let how = r.below(3);
        hs.push(std::thread::spawn(move || {
            start.wait();
            let mut v = vec![];
            for k in 0..per {
                v.push(match (how + k) % 3 {
                    0 | 1 => ActorID::generate(),
                    _ => PreparedActor::<Nil>::new(kameo::mailbox::bounded(1)).actor_ref().id(),
                });
            }
            (t, v)
        }));
    }
    let mut all: HashMap<ActorID, u64> = HashMap::new();
    let mut seqs = HashSet::new();
    for h in hs {
        let (t, v) = h.join().unwrap();
        let mut last = None;
        for id in v {
            if let Some(o) = all.insert(id, t) {
                cx.fail(&["C22"], "identity-repeated", format!("{id} was made by threads {o} and {t}"));
            }
            seqs.insert(id.sequence_id());
            last = Some(id);
        }
        cx.ev(t as u32, "made", last.map_or(0, |l| l.sequence_id()), 0);
    }
    cx.check(seqs.len() as u64 == n * per, &["C22"], "sequence-repeated", || format!("{} of {}", seqs.len(), n * per));
    cx.stat("identities", n * per);
}

struct Nil;
impl Actor for Nil {
    type Error = E;
}

/// Every kind of reference to an actor, over its life.
async fn identity_refs(cx: Cx, mut r: Rng) {
    let mut all: HashMap<ActorID, u32> = HashMap::new();
    let mut held = vec![];
    for n in 1..=r.range(1, 6) as u32 {
        let prepared = PreparedActor::new(mbox(any_cap(&mut r)));
        let id = prepared.actor_ref().id();
        let a = prepared.actor_ref().clone();
        let end = if r.chance(30) {
            let p = P::new(&cx, n, Plan::resilient());
            tokio::spawn(async move {
                prepared.run(p).await;
            })
        } else {
            spawn_prepared(&cx, prepared, P::new(&cx, n, Plan::resilient()))
        };
        if let Some(o) = all.insert(id, n) {
            cx.fail(&["C22"], "identity-repeated", format!("actors {o} and {n} have identity {id}"));
        }
        held.push((n, id, a, end));
    }
    for phase in 0..2 {
        for (n, id, a, _) in &held {
            let inside = Arc::new(Mutex::new(None));
            if phase == 0 {
                let i2 = inside.clone();
                let step = do_step(move |me| {
                    *i2.lock().unwrap() = Some(me.id());
                    async {}.boxed()
                });
                let _ = a.ask(Op::with(&cx, 1, vec![step], Out::Ok)).await;
            }
            let inside = *inside.lock().unwrap();
            let rec = a.clone().recipient::<Op>();
            let mut ids = vec![a.id(), a.clone().id(), a.downgrade().id(), a.downgrade().clone().id(), rec.id(), rec.clone().id(), rec.downgrade().id()];
            ids.extend(a.downgrade().upgrade().map(|a| a.id()));
            ids.extend(rec.downgrade().upgrade().map(|a| a.id()));
            ids.extend(inside);
            cx.ev(*n, "ids", phase, ids.len() as u64);
            cx.check(ids.iter().all(|i| i == id && i.to_bytes() == id.to_bytes()), &["C22"], "references-differ", || format!("actor {n} is {id}, its references say {ids:?}"));
        }
        if phase == 0 {
            for (_, _, a, _) in &held {
                a.kill();
                a.wait_for_shutdown().await;
            }
        }
    }
    for (_, _, a, end) in held {
        drop(a);
        let _ = end.await;
    }
}

// ---- errors

#[derive(Clone, Debug, PartialEq)]
enum K<M, X> {
    NotRunning(M),
    Stopped,
    Full(M),
    Handler(X),
    Timeout(Option<M>),
}

fn build<M, X>(k: K<M, X>) -> SendError<M, X> {
    match k {
        K::NotRunning(m) => SendError::ActorNotRunning(m),
        K::Stopped => SendError::ActorStopped,
        K::Full(m) => SendError::MailboxFull(m),
        K::Handler(e) => SendError::HandlerError(e),
        K::Timeout(m) => SendError::Timeout(m),
    }
}
fn look<M, X>(e: SendError<M, X>) -> K<M, X> {
    match e {
        SendError::ActorNotRunning(m) => K::NotRunning(m),
        SendError::ActorStopped => K::Stopped,
        SendError::MailboxFull(m) => K::Full(m),
        SendError::HandlerError(e) => K::Handler(e),
        SendError::Timeout(m) => K::Timeout(m),
    }
}

/// Counts its drops, to see that conversions neither lose nor copy values.
#[derive(Debug)]
struct Val(u64, Arc<AtomicU64>);
impl PartialEq for Val {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        self.1.fetch_add(1, Ordering::SeqCst);
    }
}
#[derive(Debug, PartialEq)]
struct Err2(Val);
#[derive(Debug, PartialEq)]
struct Other(Val);

fn any_k<M, X>(r: &mut Rng, m: impl Fn() -> M, x: impl Fn() -> X) -> K<M, X> {
    match r.below(6) {
        0 => K::NotRunning(m()),
        1 => K::Stopped,
        2 => K::Full(m()),
        3 => K::Handler(x()),
        4 => K::Timeout(Some(m())),
        _ => K::Timeout(None),
    }
}

fn kname<M, X>(k: &K<M, X>) -> u64 {
    match k {
        K::NotRunning(_) => 0,
        K::Stopped => 1,
        K::Full(_) => 2,
        K::Handler(_) => 3,
        K::Timeout(Some(_)) => 4,
        K::Timeout(None) => 5,
    }
}

fn send_errors(cx: Cx, mut r: Rng) {
    let drops = Arc::new(AtomicU64::new(0));
    let made = AtomicU64::new(0);
    for _ in 0..if cfg!(miri) { 4 } else { 40 } {
        let seed = r.next();
        let n = r.next() >> 4;
        let val = |k: u64| {
            made.fetch_add(1, Ordering::SeqCst);
            Val(n + k, drops.clone())
        };
        // The same error as often as needed
        let fresh = || any_k(&mut Rng::new(seed), || val(1), || Err2(val(2)));
        let kind = kname(&fresh());
        let fail = |sig: &str, got: String| cx.fail(&["C28"], sig, format!("error {:?} gave {got}", fresh()));
        let mut path = vec![];
        // A random sequence of conversions which together change nothing
        let mut e = build(fresh());
        for _ in 0..r.range(1, 5) {
            let step = r.below(6);
            path.push(step);
            e = match step {
                0 => e.map_msg(|m| (m, 1)).map_msg(|(m, _)| m),
                1 => e.map_err(Other2).map_err(|o| o.0),
                2 => e.boxed().downcast::<Val, Err2>(),
                3 => match e.boxed().try_downcast::<Val, Err2>() {
                    Ok(e) => e,
                    Err(_) => {
                        fail("downcast-refused", String::new());
                        return;
                    }
                },
                4 => {
                    // To wrong types, then back
                    let wrong: Result<SendError<u8, i8>, BoxSendError> = e.boxed().try_downcast();
                    match wrong {
                        Ok(w) => {
                            // Only without contents to be of the wrong type
                            let ok = matches!((&w, kind), (SendError::ActorStopped, 1) | (SendError::Timeout(None), 5));
                            if !ok {
                                fail("downcast-to-wrong-type", format!("{:?} by {path:?}", kname(&look(w))));
                                return;
                            }
                            w.map_msg(|_| unreachable!()).map_err(|_| unreachable!())
                        }
                        Err(b) => match b.try_downcast() {
                            Ok(e) => e,
                            Err(_) => {
                                fail("wrong-downcast-loses", format!("{path:?}"));
                                return;
                            }
                        },
                    }
                }
                _ => {
                    // Flattening undoes wrapping in a handler error
                    let nested: SendError<Val, SendError<Val, Err2>> = SendError::HandlerError(e);
                    nested.flatten()
                }
            };
        }
        cx.ev(0, "error", kind, path.iter().fold(0, |a, b| a * 7 + b));
        let got = look(e);
        if got != fresh() {
            fail("conversions-change", format!("{got:?} by {path:?}"));
        }
        drop(got);
        // Mapping changes what it's asked to, once
        let calls = AtomicU64::new(0);
        let got = look(build(fresh()).map_msg(|m| {
            calls.fetch_add(1, Ordering::SeqCst);
            Other(m)
        }));
        let has_msg = matches!(kind, 0 | 2 | 4);
        let ok = kname(&got) == kind
            && calls.load(Ordering::SeqCst) == has_msg as u64
            && match &got {
                K::NotRunning(o) | K::Full(o) | K::Timeout(Some(o)) => o.0 .0 == n + 1,
                K::Handler(e) => e.0 .0 == n + 2,
                _ => true,
            };
        if !ok {
            fail("map-msg", format!("{got:?}"));
        }
        let calls = AtomicU64::new(0);
        let got = look(build(fresh()).map_err(|e| {
            calls.fetch_add(1, Ordering::SeqCst);
            Other(e.0)
        }));
        let ok = kname(&got) == kind
            && calls.load(Ordering::SeqCst) == (kind == 3) as u64
            && match &got {
                K::NotRunning(o) | K::Full(o) | K::Timeout(Some(o)) => o.0 == n + 1,
                K::Handler(e) => e.0 .0 == n + 2,
                _ => true,
            };
        if !ok {
            fail("map-err", format!("{got:?}"));
        }
        // Flattening: an outer error other than the handler's stays as it is
        let outer_seed = r.next();
        let nested = any_k(&mut Rng::new(outer_seed), || val(3), || build(fresh()));
        let want = match any_k(&mut Rng::new(outer_seed), || val(3), || ()) {
            K::NotRunning(m) => K::NotRunning(m),
            K::Stopped => K::Stopped,
            K::Full(m) => K::Full(m),
            K::Timeout(m) => K::Timeout(m),
            K::Handler(()) => fresh(),
        };
        let got = look(build(nested).flatten());
        if got != want {
            fail("flatten", format!("{got:?}, expected {want:?}"));
        }
        // Taking the contents out
        if has_msg {
            let m = build(fresh()).unwrap_msg();
            if m.0 != n + 1 {
                fail("unwrap-msg", format!("{m:?}"));
            }
        }
        if kind == 3 {
            let e = build(fresh()).unwrap_err();
            if e.0 .0 != n + 2 {
                fail("unwrap-err", format!("{e:?}"));
            }
        }
        // Taking out what isn't there
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            QUIET.with(|q| q.set(true));
            if has_msg {
                build(fresh()).unwrap_err().0
            } else {
                build(fresh()).unwrap_msg()
            }
        }));
        if res.is_ok() {
            fail("unwrap-wrong", format!("{:?}", res.ok()));
        }
        // Copies of plain errors are equal to the original
        let c = any_k(&mut Rng::new(seed), || n, || n + 1);
        let e = build(c.clone());
        let e2 = e.clone();
        if e != e2 || look(e2) != c {
            fail("clone", String::new());
        }
        let near = n + r.below(2);
        let d = any_k(&mut r, || near, || near);
        if (build(c.clone()) == build(d.clone())) != (c == d) {
            fail("equality", format!("{c:?} and {d:?}"));
        }
        cx.stat("conversions", path.len() as u64 + 6);
    }
    let (m, d) = (made.load(Ordering::SeqCst), drops.load(Ordering::SeqCst));
    cx.check(m == d, &["C28"], "contents-leaked", || format!("{m} values were made, {d} dropped"));
}

#[derive(Debug)]
struct Other2(Err2);

/// Conversions of other errors, and their texts.
fn error_types(cx: Cx, mut r: Rng) {
    let n = r.below(1000);
    // Displays and debugs depend on the kind only through the kind
    let mut shown: BTreeMap<u64, String> = BTreeMap::new();
    for k in [K::NotRunning(n), K::Stopped, K::Full(n), K::Handler(format!("H{n}")), K::Timeout(Some(n)), K::Timeout(None)] {
        let kind = kname(&k);
        let e = build(k);
        let (d, g) = (format!("{e}"), format!("{e:?}"));
        if kind == 3 {
            cx.check(d == format!("H{n}") && g == format!("{:?}", format!("H{n}")), &["C28"], "display", || format!("{d} {g}"));
        }
        shown.insert(kind, d.clone());
        cx.evt(0, "shown", kind, n, d);
    }
    let set: BTreeSet<&String> = shown.values().collect();
    cx.check(set.len() == 5, &["C28"], "display", || format!("{shown:?}"));
    // Panics
    let which = r.below(5);
    let err = match which {
        0 => PanicError::new(Box::new(E(n))),
        1 => PanicError::new(Box::new(format!("text {n}"))),
        2 => PanicError::new(Box::new("text")),
        3 => PanicError::new(Box::new(SendError::<u64, E>::MailboxFull(n))),
        _ => PanicError::new(Box::new(vec![n, n + 1])),
    };
    perr_access(&cx, &err, which, n);
    let c = err.clone();
    drop(err);
    perr_access(&cx, &c, which, n);
    // Once a panic has happened while looking at it
    let c2 = c.clone();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c2.with(|_| std::panic::panic_any(VPanic(n)))));
    cx.check(res.is_err_and(|e| e.downcast_ref::<VPanic>() == Some(&VPanic(n))), &["C28"], "panic-while-looking", String::new);
    perr_access(&cx, &c, which, n);
    perr_access(&cx, &c2, which, n);
    // Its text, through a serializer
    let text = c.to_string();
    let back: Result<PanicError, _> = serde_json::from_str(&serde_json::to_string(&c).unwrap());
    cx.check(back.is_ok_and(|b| b.downcast::<String>() == Some(text.clone())), &["C28"], "panic-serialized", || text.clone());
    // Reasons
    let id = ActorID::new(any_u64(&mut r));
    let mut reason = match r.below(3) {
        0 => ActorStopReason::Normal,
        1 => ActorStopReason::Killed,
        _ => ActorStopReason::Panicked(c.clone()),
    };
    for k in 0..r.below(4) {
        reason = ActorStopReason::LinkDied { id: ActorID::new(id.sequence_id().wrapping_add(k)), reason: Box::new(reason) };
    }
    let want = reason_text(&reason);
    cx.check(reason_text(&reason.clone()) == want, &["C28"], "reason-clone", || want.clone());
    let back: ActorStopReason = rmp_serde::from_slice(&rmp_serde::to_vec(&reason).unwrap()).unwrap();
    let depth = |r: &ActorStopReason| {
        let mut v = vec![];
        let mut r = r;
        loop {
            match r {
                ActorStopReason::LinkDied { id, reason } => {
                    v.push(id.sequence_id());
                    r = reason;
                }
                ActorStopReason::Normal => return (v, 0),
                ActorStopReason::Killed => return (v, 1),
                ActorStopReason::Panicked(_) => return (v, 2),
                #[allow(unreachable_patterns)]
                _ => return (v, 3),
            }
        }
    };
    cx.check(depth(&back) == depth(&reason), &["C28"], "reason-serialized", || format!("{reason:?} gave {back:?}"));
    cx.stat("errors_looked_at", 5);
}

fn perr_access(cx: &Cx, err: &PanicError, which: u64, n: u64) {
    let got = (
        err.downcast::<E>().map(|e| e.0),
        err.downcast::<String>(),
        err.downcast::<&'static str>(),
        err.with_downcast_ref(|e: &SendError<u64, E>| matches!(e, SendError::MailboxFull(m) if *m == n)),
        err.downcast::<Vec<u64>>(),
        err.with_str(|s| s.to_string()),
        err.downcast::<u64>(),
        err.with(|e| e.is::<E>()),
    );
    let want = (
        (which == 0).then_some(n),
        (which == 1).then(|| format!("text {n}")),
        (which == 2).then_some("text"),
        (which == 3).then_some(true),
        (which == 4).then(|| vec![n, n + 1]),
        match which {
            1 => Some(format!("text {n}")),
            2 => Some("text".to_string()),
            _ => None,
        },
        None,
        which == 0,
    );
    cx.check(got == want, &["C28"], "panic-access", || format!("{got:?}, expected {want:?}"));
    let shown = format!("{err}");
    let want = match which {
        1 => format!("panicked: text {n}"),
        2 => "panicked: text".to_string(),
        _ => "panicked".to_string(),
    };
    cx.check(shown == want, &["C28"], "panic-display", || shown.clone());
}

/// Panics and errors of hooks and handlers, of several types, as every hook and waiter sees them.
async fn captured(cx: Cx, mut r: Rng) {
    #[derive(Clone)]
    struct C {
        at: u64,
        kind: u64,
        n: u64,
        seen: Arc<Mutex<Vec<(u64, PanicError)>>>,
    }
    #[derive(Clone, Debug, PartialEq)]
    struct Thrown(u64, String);
    fn go(kind: u64, n: u64) -> Result<(), Thrown> {
        match kind {
            0 => std::panic::panic_any(VPanic(n)),
            1 => panic!("vp {n}"),
            2 => panic!("vp"),
            3 => Err(Thrown(n, format!("t{n}"))),
            4 => {
                QUIET.with(|q| q.set(true));
                std::panic::panic_any(Thrown(n, format!("t{n}")))
            }
            _ => {
                QUIET.with(|q| q.set(true));
                std::panic::panic_any(n)
            }
        }
    }
    impl Actor for C {
        type Error = Thrown;
        async fn on_start(&mut self, _: ActorRef<Self>) -> Result<(), Thrown> {
            if self.at == 0 {
                return go(self.kind, self.n);
            }
            Ok(())
        }
        async fn on_panic(&mut self, _: WeakActorRef<Self>, err: PanicError) -> Result<std::ops::ControlFlow<ActorStopReason>, Thrown> {
            self.seen.lock().unwrap().push((1, err.clone()));
            if self.at == 3 {
                go(self.kind, self.n)?;
            }
            Ok(std::ops::ControlFlow::Break(ActorStopReason::Panicked(err)))
        }
        async fn on_stop(&mut self, _: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), Thrown> {
            if let ActorStopReason::Panicked(err) = reason {
                self.seen.lock().unwrap().push((2, err));
            }
            if self.at == 2 {
                return go(self.kind, self.n);
            }
            Ok(())
        }
    }
    struct Go;
    impl Message<Go> for C {
        type Reply = Result<(), Thrown>;
        async fn handle(&mut self, _: Go, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
            if self.at == 3 {
                panic!("vp");
            }
            go(self.kind, self.n)
        }
    }
    let seen: Arc<Mutex<Vec<(u64, PanicError)>>> = Arc::default();
    let c = C { at: r.below(4), kind: r.below(6), n: r.below(1 << 40), seen: seen.clone() };
    let prepared = PreparedActor::new(kameo::mailbox::unbounded());
    let a = prepared.actor_ref().clone();
    let h = prepared.spawn(c.clone());
    cx.ev(1, "captured", c.at, c.kind);
    if c.at == 1 || c.at == 3 {
        let _ = a.tell(Go).await;
    } else if c.at == 2 {
        let _ = a.stop_gracefully().await;
    }
    let _p = cx.pend("the end of an actor which fails");
    a.wait_for_shutdown().await;
    let end = h.await;
    let has = |e: &PanicError| -> (Option<u64>, Option<String>, Option<Thrown>, Option<u64>) {
        (e.downcast::<VPanic>().map(|v| v.0), e.with_str(|s| s.to_string()), e.downcast::<Thrown>(), e.downcast::<u64>())
    };
    let want = (
        (c.kind == 0).then_some(c.n),
        match c.kind {
            1 => Some(format!("vp {}", c.n)),
            2 => Some("vp".into()),
            _ => None,
        },
        (c.kind == 3 || c.kind == 4).then(|| Thrown(c.n, format!("t{}", c.n))),
        (c.kind == 5).then_some(c.n),
    );
    let mut errs: Vec<(u64, PanicError)> = seen.lock().unwrap().clone();
    if c.at == 3 {
        // The first is the handler's
        let ok = !errs.is_empty() && errs[0].1.with_str(|s| s == "vp") == Some(true);
        cx.check(ok, &["C28"], "captured-panic", || "the panic hook did not see the handler's panic".into());
        if ok {
            errs.remove(0);
        }
    }
    if let Ok((_, ActorStopReason::Panicked(e))) = &end {
        errs.push((3, e.clone()));
    }
    // Everything which saw it, sees the same
    let mut whose = BTreeSet::new();
    for (w, e) in &errs {
        whose.insert(*w);
        let got = has(e);
        cx.check(got == want, &["C28"], "captured-panic", || format!("at {} by {w}: {got:?}, expected {want:?}", c.at));
        let c2 = e.clone();
        cx.check(has(&c2) == want, &["C28"], "captured-panic", || "a clone differs".into());
    }
    if c.at != 2 && c.at != 0 {
        cx.check(whose.contains(&2) && whose.contains(&3), &["C28"], "captured-panic-unseen", || format!("at {} of kind {}, seen by {whose:?}", c.at, c.kind));
    }
    if c.at == 0 && c.kind == 3 {
        let got = a.wait_for_startup_result().await;
        cx.check(got.as_ref().is_err_and(|e| format!("{e:?}").contains("Thrown")), &["C28"], "startup-error", || format!("{:?}", got.is_ok()));
    }
    cx.stat("captured", errs.len() as u64);
}

/// Clones of a captured panic used by several threads.
fn panic_threads(cx: Cx, mut r: Rng) {
    let which = r.below(5);
    let n = r.below(1000);
    let err = match which {
        0 => PanicError::new(Box::new(E(n))),
        1 => PanicError::new(Box::new(format!("text {n}"))),
        2 => PanicError::new(Box::new("text")),
        3 => PanicError::new(Box::new(SendError::<u64, E>::MailboxFull(n))),
        _ => PanicError::new(Box::new(vec![n, n + 1])),
    };
    let hs: Vec<_> = (0..r.range(2, 4))
        .map(|t| {
            let (cx, err) = (cx.clone(), err.clone());
            std::thread::spawn(move || {
                for _ in 0..5 {
                    let c = err.clone();
                    perr_access(&cx, &c, which, n);
                    if t == 1 {
                        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.with(|_| std::panic::panic_any(VPanic(1)))));
                    }
                }
            })
        })
        .collect();
    drop(err);
    for h in hs {
        let _ = h.join();
    }
    cx.ev(0, "panic", which, n);
}

// ---- the registry

struct A1;
impl Actor for A1 {
    type Error = E;
}
struct A2;
impl Actor for A2 {
    type Error = E;
}

#[derive(Clone)]
enum Any {
    A1(ActorRef<A1>),
    A2(ActorRef<A2>),
}

impl Any {
    fn new(t: u64) -> Any {
        // Never run: only its identity matters
        if t == 0 {
            Any::A1(PreparedActor::new(kameo::mailbox::bounded(1)).actor_ref().clone())
        } else {
            Any::A2(PreparedActor::new(kameo::mailbox::bounded(1)).actor_ref().clone())
        }
    }
    fn key(&self) -> (u64, u64) {
        match self {
            Any::A1(a) => (0, a.id().sequence_id()),
            Any::A2(a) => (1, a.id().sequence_id()),
        }
    }
}

/// Type and identity of what a name holds.
type Held = (u64, u64);
type Map = BTreeMap<String, Held>;

#[derive(Clone, Debug, PartialEq)]
enum ROp {
    Insert(String, Held),
    Register(String, Held),
    Get(String, u64),
    Lookup(String, u64),
    Remove(String),
    Contains(String),
    Len,
    Names,
    Clear,
}

#[derive(Clone, Debug, PartialEq)]
enum RRes {
    Unit,
    Bool(bool),
    Ref(Option<u64>),
    BadType,
    N(usize),
    Names(BTreeSet<String>),
    Poisoned,
}

fn apply(m: &mut Map, op: &ROp) -> RRes {
    match op {
        ROp::Insert(n, h) => RRes::Bool(m.insert(n.clone(), *h).is_some()),
        ROp::Register(n, h) => {
            m.insert(n.clone(), *h);
            RRes::Unit
        }
        ROp::Get(n, t) | ROp::Lookup(n, t) => match m.get(n) {
            None => RRes::Ref(None),
            Some((u, id)) if u == t => RRes::Ref(Some(*id)),
            Some(_) => RRes::BadType,
        },
        ROp::Remove(n) => RRes::Bool(m.remove(n).is_some()),
        ROp::Contains(n) => RRes::Bool(m.contains_key(n)),
        ROp::Len => RRes::N(m.len()),
        ROp::Names => RRes::Names(m.keys().cloned().collect()),
        ROp::Clear => {
            m.clear();
            RRes::Unit
        }
    }
}

fn gres<A: Actor>(r: Result<Option<ActorRef<A>>, RegistryError>) -> RRes {
    match r {
        Ok(a) => RRes::Ref(a.map(|a| a.id().sequence_id())),
        Err(RegistryError::BadActorType) => RRes::BadType,
        #[allow(unreachable_patterns)]
        Err(_) => RRes::Poisoned,
    }
}

fn on_map(reg: &mut ActorRegistry, op: &ROp, actors: &[Any], owned: bool) -> RRes {
    let of = |h: &Held| actors.iter().find(|a| a.key() == *h).unwrap().clone();
    let cow = |n: &String| -> Cow<'static, str> {
        if owned {
            Cow::Owned(n.clone())
        } else {
            Cow::Borrowed(NAMES.iter().find(|m| *m == n).copied().unwrap_or("?"))
        }
    };
    match op {
        ROp::Insert(n, h) | ROp::Register(n, h) => RRes::Bool(match of(h) {
            Any::A1(a) => reg.insert(cow(n), a),
            Any::A2(a) => reg.insert(cow(n), a),
        }),
        ROp::Get(n, t) | ROp::Lookup(n, t) => match (t, owned) {
            (0, true) => gres(reg.get::<A1, str>(n)),
            (0, false) => gres(reg.get::<A1, Cow<'static, str>>(&cow(n))),
            (_, true) => gres(reg.get::<A2, str>(n)),
            (_, false) => gres(reg.get::<A2, Cow<'static, str>>(&cow(n))),
        },
        ROp::Remove(n) => RRes::Bool(if owned { reg.remove(n.as_str()) } else { reg.remove(&cow(n)) }),
        ROp::Contains(n) => RRes::Bool(if owned { reg.contains_name(n.as_str()) } else { reg.contains_name(&cow(n)) }),
        ROp::Len => {
            if reg.is_empty() != (reg.len() == 0) {
                return RRes::N(usize::MAX);
            }
            RRes::N(reg.len())
        }
        ROp::Names => RRes::Names(reg.names().map(|n| n.to_string()).collect()),
        ROp::Clear => {
            reg.clear();
            RRes::Unit
        }
    }
}

/// Through the functions which lock the global registry.
fn on_global(op: &ROp, actors: &[Any], owned: bool) -> RRes {
    let of = |h: &Held| actors.iter().find(|a| a.key() == *h).unwrap().clone();
    match op {
        ROp::Register(n, h) => {
            let n: Cow<'static, str> = if owned { Cow::Owned(n.clone()) } else { Cow::Borrowed(NAMES.iter().find(|m| *m == n).copied().unwrap_or("?")) };
            let r = match of(h) {
                Any::A1(a) => a.register(n),
                Any::A2(a) => a.register(n),
            };
            match r {
                Ok(()) => RRes::Unit,
                Err(_) => RRes::Poisoned,
            }
        }
        ROp::Lookup(n, 0) => gres(ActorRef::<A1>::lookup(n.as_str())),
        ROp::Lookup(n, _) => gres(ActorRef::<A2>::lookup(n.as_str())),
        op => match ACTOR_REGISTRY.lock() {
            Ok(mut reg) => on_map(&mut reg, op, actors, owned),
            Err(_) => RRes::Poisoned,
        },
    }
}

const NAMES: [&str; 6] = ["", "a", "b", "a/b", "é", "a name which is rather longer than the others, to be sure"];

fn any_rop(r: &mut Rng, actors: &[Any], names: usize, global: bool) -> ROp {
    let n = NAMES[r.us(names)].to_string();
    let h = actors[r.us(actors.len())].key();
    match r.below(24) {
        0..=3 => ROp::Insert(n, h),
        4..=6 if global => ROp::Register(n, h),
        4..=9 => ROp::Get(n, r.below(2)),
        10..=13 if global => ROp::Lookup(n, r.below(2)),
        10..=15 => ROp::Remove(n),
        16 | 17 => ROp::Contains(n),
        18 | 19 => ROp::Len,
        20 => ROp::Names,
        21 if r.chance(40) => ROp::Clear,
        _ => ROp::Get(n, r.below(2)),
    }
}

fn registry_seq(cx: Cx, mut r: Rng) {
    let actors: Vec<Any> = (0..4).map(|k| Any::new(k % 2)).collect();
    let mut reg = match r.below(3) {
        0 => ActorRegistry::new(),
        1 => ActorRegistry::with_capacity(r.us(50)),
        _ => ActorRegistry::default(),
    };
    let mut m = Map::new();
    for _ in 0..r.range(3, 60) {
        let op = any_rop(&mut r, &actors, NAMES.len(), false);
        let owned = r.chance(50);
        let want = apply(&mut m, &op);
        let got = on_map(&mut reg, &op, &actors, owned);
        cx.evt(0, "op", 0, 0, format!("{op:?} {got:?}"));
        cx.check(got == want, &["C21"], "registry-result", || format!("{op:?} gave {got:?}, expected {want:?}"));
        cx.check(reg.capacity() >= reg.len(), &["C21"], "registry-capacity", String::new);
        // A registered actor is kept alive by the registry, once per name
        for a in &actors {
            let held = m.values().filter(|h| **h == a.key()).count();
            let n = match a {
                Any::A1(a) => a.strong_count(),
                Any::A2(a) => a.strong_count(),
            };
            cx.check(n == 1 + held, &["C21"], "registry-reference", || format!("{n} references with {held} names"));
        }
        cx.stat("operations", 1);
    }
}

#[derive(Clone, Debug)]
struct Call {
    op: ROp,
    res: RRes,
    from: u64,
    to: u64,
}

/// Whether the calls have an order, respecting real time, which the map explains. None if too hard.
fn linearizable(calls: &[Call], start: &Map) -> Option<bool> {
    fn go(calls: &[Call], done: u64, m: &Map, seen: &mut HashSet<(u64, Vec<(String, Held)>)>, left: &mut u64) -> bool {
        if done == (1u64 << calls.len()) - 1 {
            return true;
        }
        if *left == 0 {
            return false;
        }
        *left -= 1;
        let key = (done, m.iter().map(|(k, v)| (k.clone(), *v)).collect());
        if !seen.insert(key) {
            return false;
        }
        let first_end = calls.iter().enumerate().filter(|(i, _)| done & (1 << i) == 0).map(|(_, c)| c.to).min().unwrap();
        for (i, c) in calls.iter().enumerate() {
            if done & (1 << i) == 0 && c.from <= first_end {
                let mut m2 = m.clone();
                if apply(&mut m2, &c.op) == c.res && go(calls, done | (1 << i), &m2, seen, left) {
                    return true;
                }
            }
        }
        false
    }
    let mut left = 200_000;
    let ok = go(calls, 0, start, &mut HashSet::new(), &mut left);
    if !ok && left == 0 {
        return None;
    }
    Some(ok)
}

static REGISTRY_TURN: Mutex<()> = Mutex::new(());

fn registry_threads(cx: Cx, mut r: Rng) {
    let _turn = REGISTRY_TURN.lock().unwrap_or_else(|e| e.into_inner());
    if let Ok(mut g) = ACTOR_REGISTRY.lock() {
        g.clear();
    }
    let actors: Arc<Vec<Any>> = Arc::new((0..4).map(|k| Any::new(k % 2)).collect());
    let names = r.range(1, 3) as usize;
    let threads = r.range(2, 5);
    let per = r.range(2, 10);
    let clock = Arc::new(AtomicU64::new(0));
    let start = Arc::new(std::sync::Barrier::new(threads as usize));
    let mut hs = vec![];
    for _ in 0..threads {
        let (actors, clock, start) = (actors.clone(), clock.clone(), start.clone());
        let mut r = r.fork();
        hs.push(std::thread::spawn(move || {
            let ops: Vec<(ROp, bool)> = (0..per).map(|_| (any_rop(&mut r, &actors, names, true), r.chance(50))).collect();
            start.wait();
            let mut v = vec![];
            for (op, owned) in ops {
                let from = clock.fetch_add(1, Ordering::SeqCst);
                let res = on_global(&op, &actors, owned);
                let to = clock.fetch_add(1, Ordering::SeqCst);
                v.push(Call { op, res, from, to });
                if r.chance(20) {
                    std::thread::yield_now();
                }
            }
            v
        }));
    }
    let mut calls: Vec<Call> = hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect();
    calls.sort_by_key(|c| c.from);
    for c in &calls {
        cx.evt(0, "call", c.from, c.to, format!("{:?} {:?}", c.op, c.res));
    }
    check_calls(&cx, &calls);
    if let Ok(mut g) = ACTOR_REGISTRY.lock() {
        g.clear();
    }
    for a in actors.iter() {
        let n = match a {
            Any::A1(a) => a.strong_count(),
            Any::A2(a) => a.strong_count(),
        };
        cx.check(n == 1, &["C21"], "registry-reference", || format!("{n} references after clearing"));
    }
}

fn check_calls(cx: &Cx, calls: &[Call]) {
    let overlap = calls.windows(2).filter(|w| w[1].from < w[0].to).count();
    cx.stat("overlapping_calls", overlap as u64);
    cx.stat("operations", calls.len() as u64);
    match linearizable(calls, &Map::new()) {
        Some(true) => {}
        Some(false) => {
            cx.fail(&["C21"], "not-linearizable", format!("no order explains {calls:?}"));
        }
        None => cx.stat("undecided_histories", 1),
    }
}

/// From tasks, looking up actors which are running, by name, to use them.
async fn registry_tasks(cx: Cx, mut r: Rng) {
    let cx2 = cx.clone();
    let tasks: Vec<_> = (0..r.range(2, 4) as u32)
        .map(|t| {
            let (cx, mut r) = (cx2.clone(), r.fork());
            tokio::spawn(async move {
                for k in 0..r.range(2, 8) {
                    // Names of its own, so it knows what to expect
                    let name = format!("task {t} {}", r.below(2));
                    let n = 1000 + t * 100 + k as u32;
                    let a = kameo::actor::spawn_with_mailbox(P::new(&cx, n, Plan::resilient()), mbox(any_cap(&mut r)));
                    let id = a.id();
                    let w = a.downgrade();
                    cx.check(a.register(name.clone()).is_ok(), &["C21"], "register-failed", String::new);
                    drop(a);
                    cx.pause(&mut r).await;
                    match ActorRef::<P>::lookup(name.as_str()) {
                        Ok(Some(b)) => {
                            cx.check(b.id() == id, &["C21"], "lookup-other-actor", || format!("{} instead of {id}", b.id()));
                            let got = b.ask(Get).await;
                            cx.check(got.is_ok(), &["C21"], "registered-not-alive", || format!("{:?}", got.is_ok()));
                        }
                        other => cx.fail(&["C21"], "lookup-failed", format!("{:?}", other.map(|o| o.is_some()))),
                    }
                    cx.check(matches!(ActorRef::<A1>::lookup(name.as_str()), Err(RegistryError::BadActorType)), &["C21"], "lookup-bad-type", String::new);
                    if r.chance(60) {
                        let was = ACTOR_REGISTRY.lock().unwrap().remove(name.as_str());
                        cx.check(was, &["C21"], "remove-failed", String::new);
                        cx.check(matches!(ActorRef::<P>::lookup(name.as_str()), Ok(None)), &["C21"], "lookup-removed", String::new);
                        // Nothing else holds it
                        let _p = cx.pend("an actor removed from the registry ending");
                        if let Some(a) = w.upgrade() {
                            let w = a.downgrade();
                            drop(a);
                            loop {
                                match w.upgrade() {
                                    Some(a) if a.is_alive() => {}
                                    _ => break,
                                }
                                tokio::time::sleep(std::time::Duration::from_micros(50)).await;
                            }
                        }
                    }
                    cx.stat("actors_registered", 1);
                }
                for k in 0..2 {
                    ACTOR_REGISTRY.lock().unwrap().remove(format!("task {t} {k}").as_str());
                }
            })
        })
        .collect();
    for t in tasks {
        let _ = t.await;
    }
}
