//! Actor pools.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
};

use futures::FutureExt;
use kameo::prelude::*;
use kameo_actors::pool::{ActorPool, Broadcast, Dispatch};
use tokio::sync::Semaphore;

use crate::{core::*, det, mt, probe::*, Family};

pub fn families() -> Vec<Family> {
    vec![
        det("pool", &["C17"], 25, |cx, r| pool(cx, r).boxed()),
        det("pool-balance", &["C17"], 25, |cx, r| balance(cx, r).boxed()),
        mt("pool-mt", &["C17"], 5, 4, |cx, r| pool(cx, r).boxed()),
    ]
}

type Pool = ActorRef<ActorPool<P>>;

/// What the factory made.
#[derive(Clone)]
struct Made {
    calls: Arc<AtomicU64>,
    refs: Arc<Mutex<Vec<WeakActorRef<P>>>>,
}

/// The number of workers made and of those dropped.
fn made(cx: &Cx) -> (u64, u64) {
    let mut a = 0;
    let mut b = 0;
    for e in cx.events() {
        match e.kind {
            "made" => a += 1,
            "dropped" => b += 1,
            _ => {}
        }
    }
    (a, b)
}

async fn make_pool(cx: &Cx, r: &mut Rng, size: usize, cap: u64, pool_cap: u64, failing: bool) -> (Pool, Made) {
    let m = Made { calls: Arc::default(), refs: Arc::default() };
    let seed = r.next();
    let bad = Arc::new(AtomicU64::new(if failing { r.below(3) } else { 0 }));
    let one = {
        let (cx, m) = (cx.clone(), m.clone());
        move || {
            let k = m.calls.fetch_add(1, Ordering::SeqCst);
            let mut r = Rng::new(mix(seed, k));
            let mut plan = if failing && r.chance(50) { Plan::default() } else { Plan::resilient() };
            if r.chance(40) {
                plan.start.steps = any_steps(&mut r);
            }
            if r.chance(40) {
                plan.stop.steps = any_steps(&mut r);
            }
            if failing && r.chance(25) && bad.load(Ordering::SeqCst) > 0 {
                bad.fetch_sub(1, Ordering::SeqCst);
                plan.start.out = if r.chance(50) { Out::Fail(3) } else { Out::PanicStr };
            }
            let n = 100 + k as u32;
            cx.ev(n, "made", k, 0);
            let a = kameo::actor::spawn_with_mailbox(P::new(&cx, n, plan), mbox(cap));
            m.refs.lock().unwrap().push(a.downgrade());
            a
        }
    };
    let p = if r.chance(50) {
        ActorPool::new(size, one)
    } else {
        let cx = cx.clone();
        ActorPool::new_async(size, move || {
            let (one, cx) = (one.clone(), cx.clone());
            async move {
                let mut r = Rng::new(mix(seed, 99));
                cx.pause(&mut r).await;
                one()
            }
        })
        .await
    };
    let mb = if pool_cap == 0 { kameo::mailbox::unbounded() } else { kameo::mailbox::bounded(pool_cap as usize) };
    (kameo::actor::spawn_with_mailbox(p, mb), m)
}

fn dres(r: Result<u64, SendError<Dispatch<Op>, E>>) -> Res {
    ask_res(r.map_err(|e| e.map_msg(|d| d.0)))
}
fn dtell(r: Result<(), SendError<Dispatch<Op>, E>>) -> Res {
    match r {
        Ok(()) => Res::Sent,
        Err(e) => dres(Err(e)),
    }
}

/// Dispatches and waits for the outcome.
async fn dispatch(cx: &Cx, v: u64, t: u64, p: &Pool, op: Op) -> Res {
    let m = Dispatch(op);
    match v {
        0 => dtell(p.tell(m).send().await.map_err(|e| e.map_err(|_| E(0)))),
        1 => dtell(p.tell(m).await.map_err(|e| e.map_err(|_| E(0)))),
        2 => dtell(p.tell(m).try_send().map_err(|e| e.map_err(|_| E(0)))),
        3 => dtell(p.tell(m).mailbox_timeout(cx.dur(t)).send().await.map_err(|e| e.map_err(|_| E(0)))),
        4 => dtell(p.clone().recipient::<Dispatch<Op>>().tell(m).send().await.map_err(|e| e.map_err(|_| E(0)))),
        5 => dres(p.ask(m).send().await),
        6 => dres(p.ask(m).await),
        7 => dres(p.ask(m).try_send().await),
        8 => dres(p.ask(m).mailbox_timeout(cx.dur(t)).send().await),
        9 => dres(p.ask(m).reply_timeout(cx.dur(t)).send().await),
        _ => match p.ask(m).enqueue().await {
            Ok(p) => dres(p.await),
            Err(e) => enq_err(e),
        },
    }
}

#[derive(Clone)]
struct Sent {
    uid: u64,
    out: Out,
    v: u64,
    res: Res,
    /// Whether no worker could die around it
    clean: bool,
}

async fn pool(cx: Cx, mut r: Rng) {
    let det = cx.det();
    let size = r.range(1, 5) as usize;
    let cap = *r.pick(&[0, 0, 1, 2, 8, 64]);
    let pool_cap = *r.pick(&[0, 1, 4, 64]);
    let failing = r.chance(60);
    let (p, made_by) = make_pool(&cx, &mut r, size, cap, pool_cap, failing).await;
    let mut sent: Vec<Sent> = vec![];
    let mut broadcasts: BTreeMap<u64, (usize, bool)> = BTreeMap::new();
    let mut other_broadcasts: BTreeSet<u64> = BTreeSet::new();
    for phase in 0..r.range(2, 5) {
        // In a clean phase no worker ends
        let clean = phase == 0 && !failing || r.chance(40);
        if clean && !quiet(&cx, &p, size, &mut broadcasts).await {
            return;
        }
        cx.ev(0, "phase", phase, clean as u64);
        let gate = Arc::new(Semaphore::new(0));
        let mut tasks = vec![];
        for c in 1..=r.range(1, 5) {
            let (cx, p, gate) = (cx.clone(), p.clone(), gate.clone());
            let made_by = made_by.clone();
            let mut r = r.fork();
            tasks.push(tokio::spawn(async move {
                let mut sent = vec![];
                let mut bc = vec![];
                for _ in 0..r.range(1, 12) {
                    if r.chance(40) {
                        cx.pause(&mut r).await;
                    }
                    if !clean && r.chance(12) {
                        let some: Vec<_> = made_by.refs.lock().unwrap().iter().filter_map(|w| w.upgrade()).filter(|a| a.is_alive()).collect();
                        match r.below(4) {
                            // All at once
                            0 => {
                                for a in some {
                                    a.kill();
                                }
                            }
                            1 => {
                                for a in some {
                                    let _ = a.stop_gracefully().await;
                                }
                            }
                            _ => {
                                if !some.is_empty() {
                                    let a = &some[r.us(some.len())];
                                    if r.chance(50) {
                                        a.kill();
                                    } else {
                                        let _ = a.tell(Op::with(&cx, 90, vec![], Out::PanicString(5))).await;
                                    }
                                }
                            }
                        }
                        continue;
                    }
                    let steps = if r.chance(12) { vec![Step::Gate(gate.clone())] } else { any_steps(&mut r) };
                    if r.chance(15) {
                        let op = Op::with(&cx, c, steps, Out::Ok);
                        let uid = op.uid;
                        if r.chance(50) {
                            let _p = cx.pend("broadcast");
                            match p.ask(Broadcast(op)).await {
                                Ok(v) => bc.push((uid, v.len(), clean && v.iter().all(|r| r.is_ok()))),
                                Err(e) => cx.fail(&["C17"], "broadcast-failed", format!("{e:?}")),
                            }
                        } else if p.tell(Broadcast(op)).await.is_err() {
                            cx.fail(&["C17"], "broadcast-refused", "");
                        } else {
                            bc.push((uid, usize::MAX, clean));
                        }
                        continue;
                    }
                    let v = r.below(11);
                    let out = if v >= 5 && r.chance(12) {
                        Out::Fail(r.below(50))
                    } else if !clean && r.chance(15) {
                        if r.chance(50) {
                            any_panic(&mut r)
                        } else {
                            Out::Fail(7)
                        }
                    } else {
                        Out::Ok
                    };
                    let op = Op::with(&cx, c, steps, out);
                    let uid = op.uid;
                    let t = r.range(1, 30);
                    cx.ev(c as u32, "dispatch", uid, v);
                    let res = {
                        let _p = cx.pend(format!("dispatch of kind {v}, message {uid}"));
                        dispatch(&cx, v, t, &p, op).await
                    };
                    cx.ev(c as u32, "dispatched", uid, res.code());
                    sent.push(Sent { uid, out, v, res, clean });
                }
                (sent, bc)
            }));
        }
        cx.sleep(40).await;
        gate.add_permits(1000);
        for t in tasks {
            let _p = cx.pend("client");
            if let Ok((s, b)) = t.await {
                sent.extend(s);
                for (u, n, ok) in b {
                    if n == usize::MAX {
                        if ok {
                            broadcasts.insert(u, (size, true));
                        } else {
                            other_broadcasts.insert(u);
                        }
                    } else {
                        cx.check(n == size, &["C17"], "broadcast-results", || format!("a broadcast gave {n} results with {size} workers"));
                        if ok {
                            broadcasts.insert(u, (size, false));
                        } else {
                            other_broadcasts.insert(u);
                        }
                    }
                }
            }
        }
        if !quiet(&cx, &p, size, &mut broadcasts).await {
            return;
        }
    }
    // Dropping the pool ends the workers
    let id = p.id();
    drop(p);
    {
        let _p = cx.pend("the workers of a dropped pool ending");
        loop {
            let (a, b) = made(&cx);
            if a == b {
                break;
            }
            if cx.ms() > if det { 3600_000 } else { 300_000 } {
                cx.fail(&["C05", "C17"], "workers-outlive-pool", format!("{} workers of pool {} were still there long after it was dropped", a - b, id.sequence_id()));
                break;
            }
            cx.settle().await;
        }
    }
    // Offline: who handled what
    let mut by: BTreeMap<u64, Vec<u32>> = BTreeMap::new();
    let mut ended: BTreeMap<u64, u64> = BTreeMap::new();
    for e in cx.events() {
        match e.kind {
            "h" => by.entry(e.a).or_default().push(e.who),
            "h_end" => *ended.entry(e.a).or_default() += 1,
            _ => {}
        }
    }
    for s in &sent {
        let n = by.get(&s.uid).map_or(0, |v| v.len());
        let done = ended.get(&s.uid).copied().unwrap_or(0);
        let what = || format!("message {} dispatched by {} gave {:?}, was handled {n} times ({done} to the end) by {:?}, its outcome {:?}, clean {}", s.uid, s.v, s.res, by.get(&s.uid), s.out, s.clean);
        cx.check(n <= 1, &["C17"], "dispatched-twice", what);
        let ok = match &s.res {
            Res::Reply(x) => *x == answer(s.uid) && s.out == Out::Ok && n == 1 && done == 1,
            Res::HandlerErr(e) => s.out == Out::Fail(e.0) && n == 1 && done == 1,
            Res::NotRunning(Some(u)) => *u == s.uid && n == 0 && !s.clean,
            Res::Full(u) => pool_cap > 0 && (s.v == 2 || s.v == 7) && n == 0 && *u == Some(s.uid),
            Res::TimeoutSpace(u) => pool_cap > 0 && (s.v == 3 || s.v == 8) && n == 0 && *u == Some(s.uid),
            Res::TimeoutReply => s.v == 9 && (n == 1 || !s.clean),
            Res::Stopped => s.v >= 5 && !s.clean,
            Res::Sent => s.v < 5 && (n == 1 || !s.clean),
            _ => false,
        };
        let sig = match (&s.res, n) {
            (Res::Sent, 0) => "dispatch-lost",
            (Res::Reply(_) | Res::HandlerErr(_), _) => "dispatch-wrong-reply",
            _ => "dispatch-wrong-result",
        };
        cx.check(ok, &["C17"], sig, what);
    }
    for (u, (k, _)) in &broadcasts {
        let w = by.get(u).cloned().unwrap_or_default();
        let distinct: BTreeSet<u32> = w.iter().copied().collect();
        cx.check(w.len() == *k && distinct.len() == *k, &["C17"], "broadcast-not-to-each", || format!("broadcast {u} was handled by {w:?} in a pool of {k}"));
    }
    for u in &other_broadcasts {
        let w = by.get(u).cloned().unwrap_or_default();
        let distinct: BTreeSet<u32> = w.iter().copied().collect();
        cx.check(distinct.len() == w.len() && w.len() <= size, &["C17"], "broadcast-twice-to-one", || format!("broadcast {u} was handled by {w:?}"));
    }
    let (a, _) = made(&cx);
    cx.stat("dispatches", sent.len() as u64);
    cx.stat("broadcasts", broadcasts.len() as u64);
    cx.stat("workers_replaced", a - size as u64);
}

/// Waits until the pool is back to its size, and checks it.
async fn quiet(cx: &Cx, p: &Pool, size: usize, broadcasts: &mut BTreeMap<u64, (usize, bool)>) -> bool {
    let mut spins = 0;
    loop {
        cx.settle().await;
        let (a, b) = made(cx);
        if a - b == size as u64 {
            break;
        }
        spins += 1;
        if spins > if cx.det() { 200 } else { 12_000 } {
            cx.fail(&["C17"], "size-not-kept", format!("a pool of {size} has {} workers long after the last message", a - b));
            return false;
        }
        let _p = cx.pend(format!("the pool getting back to its size {size}: {}", a - b));
        if !cx.det() {
            tokio::time::sleep(std::time::Duration::from_millis(1)).await;
        }
    }
    if !cx.check(p.is_alive(), &["C17"], "pool-stopped", || "the pool isn't alive".into()) {
        return false;
    }
    // Every worker takes a broadcast. Outside virtual time, a worker may still be finding out that its actor ended.
    let mut tries = 0;
    loop {
        let op = Op::new(cx, 98);
        let uid = op.uid;
        let _p = cx.pend("broadcast to a quiet pool");
        match p.ask(Broadcast(op)).await {
            Ok(v) => {
                cx.settle().await;
                let ok = v.len() == size && v.iter().all(|r| r.is_ok());
                let n = cx.events().iter().filter(|e| e.kind == "h" && e.a == uid).count();
                let (a, b) = made(cx);
                if ok && n == size && a - b == size as u64 {
                    broadcasts.insert(uid, (size, false));
                    break;
                }
                tries += 1;
                if tries > if cx.det() { 3 } else { 12_000 } {
                    cx.fail(&["C17"], "size-not-kept", format!("a broadcast to a quiet pool of {size} was handled {n} times, results {v:?}"));
                    return false;
                }
            }
            Err(e) => {
                cx.fail(&["C17"], "broadcast-failed", format!("{e:?}"));
                return false;
            }
        }
    }
    // And dispatches are handled
    for k in 0..size as u64 + 1 {
        let op = Op::new(cx, 97);
        let uid = op.uid;
        let _p = cx.pend("dispatch to a quiet pool");
        let res = dispatch(cx, 5 + k % 2, 0, p, op).await;
        cx.check(res == Res::Reply(answer(uid)), &["C17"], "dispatch-to-quiet-pool", || format!("a dispatch to a quiet pool gave {res:?}"));
    }
    true
}

/// Loads are known at each dispatch: one at a time, with everything waiting in between.
async fn balance(cx: Cx, mut r: Rng) {
    let size = r.range(1, 6) as usize;
    let cap = *r.pick(&[0, 64]);
    let (p, made_by) = make_pool(&cx, &mut r, size, cap, 0, false).await;
    cx.settle().await;
    #[derive(Clone, Copy)]
    enum Act {
        Dispatch(u64),
        Broadcast(u64),
        Release(u64),
        /// All workers were replaced
        Reset,
    }
    let mut acts: Vec<Act> = vec![];
    let mut gates: BTreeMap<u64, Arc<Semaphore>> = BTreeMap::new();
    let mut asks = vec![];
    for _ in 0..r.range(5, 40) {
        match r.below(20) {
            0..=9 => {
                let gate = Arc::new(Semaphore::new(0));
                let op = Op::with(&cx, 1, vec![Step::Gate(gate.clone())], Out::Ok);
                let uid = op.uid;
                gates.insert(uid, gate);
                acts.push(Act::Dispatch(uid));
                if r.chance(50) {
                    let _ = p.tell(Dispatch(op)).await;
                } else {
                    let p = p.clone();
                    asks.push((uid, tokio::spawn(async move { dres(p.ask(Dispatch(op)).await) })));
                }
            }
            10 => {
                let gate = Arc::new(Semaphore::new(0));
                let op = Op::with(&cx, 1, vec![Step::Gate(gate.clone())], Out::Ok);
                let uid = op.uid;
                gates.insert(uid, gate);
                acts.push(Act::Broadcast(uid));
                let _ = p.tell(Broadcast(op)).await;
            }
            11 if gates.is_empty() => {
                for w in made_by.refs.lock().unwrap().iter() {
                    if let Some(a) = w.upgrade() {
                        a.kill();
                    }
                }
                acts.push(Act::Reset);
            }
            _ => {
                // The oldest of some worker: only what is being handled can finish
                let evs = cx.events();
                let mut open: BTreeSet<u64> = BTreeSet::new();
                for e in &evs {
                    match e.kind {
                        "gated" => {
                            open.insert(e.a);
                        }
                        "h_end" => {
                            open.remove(&e.a);
                        }
                        _ => {}
                    }
                }
                let open: Vec<u64> = open.into_iter().filter(|u| gates.contains_key(u)).collect();
                if !open.is_empty() {
                    let u = *r.pick(&open);
                    acts.push(Act::Release(u));
                    let g = gates.remove(&u).unwrap();
                    g.add_permits(1000);
                }
            }
        }
        cx.settle().await;
    }
    for g in gates.values() {
        g.add_permits(1000);
    }
    cx.settle().await;
    for (uid, t) in asks {
        let _p = cx.pend("balanced ask");
        if let Ok(res) = t.await {
            cx.check(res == Res::Reply(answer(uid)), &["C17"], "dispatch-wrong-reply", || format!("message {uid} got {res:?}"));
        }
    }
    // Offline: replay the loads
    let mut by: BTreeMap<u64, Vec<u32>> = BTreeMap::new();
    for e in cx.events() {
        if e.kind == "h" {
            by.entry(e.a).or_default().push(e.who);
        }
    }
    let mut load: BTreeMap<u32, i64> = (0..size as u32).map(|k| (100 + k, 0)).collect();
    let mut next = 100 + size as u32;
    // Releases of broadcast messages let every worker finish it, when it gets there
    let mut free: BTreeSet<u64> = BTreeSet::new();
    let mut queue: BTreeMap<u32, Vec<u64>> = BTreeMap::new();
    let mut loads_seen = 0;
    for a in acts {
        match a {
            Act::Dispatch(u) => {
                let w = by.get(&u).cloned().unwrap_or_default();
                if !cx.check(w.len() == 1, &["C17"], "dispatch-lost", || format!("message {u} was handled by {w:?}")) {
                    return;
                }
                let l = load.get(&w[0]).copied();
                let min = load.values().min().copied().unwrap_or(0);
                cx.check(l == Some(min), &["C17"], "not-least-busy", || format!("message {u} went to worker {} with loads {load:?}", w[0]));
                *load.entry(w[0]).or_default() += 1;
                queue.entry(w[0]).or_default().push(u);
                loads_seen += 1;
            }
            Act::Broadcast(u) => {
                let w: BTreeSet<u32> = by.get(&u).cloned().unwrap_or_default().into_iter().collect();
                let all: BTreeSet<u32> = load.keys().copied().collect();
                cx.check(w == all, &["C17"], "broadcast-not-to-each", || format!("broadcast {u} was handled by {w:?}, the workers are {all:?}"));
                for k in all {
                    *load.entry(k).or_default() += 1;
                    queue.entry(k).or_default().push(u);
                }
            }
            Act::Release(u) => {
                free.insert(u);
                for (k, q) in &mut queue {
                    while q.first().is_some_and(|u| free.contains(u)) {
                        q.remove(0);
                        *load.get_mut(k).unwrap() -= 1;
                    }
                }
            }
            Act::Reset => {
                load = (0..size as u32).map(|k| (next + k, 0)).collect();
                next += size as u32;
                queue.clear();
            }
        }
    }
    cx.stat("balanced_dispatches", loads_seen);
    if loads_seen == 0 {
        cx.trivial();
    }
}
