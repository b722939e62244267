//! Links: who is told of which death, and that nothing of it deadlocks.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    sync::{Arc, Barrier},
};

use futures::FutureExt;
use kameo::prelude::*;
use tokio::sync::Semaphore;

use crate::{core::*, det, history::*, mt, probe::*, raw, Family};

pub fn families() -> Vec<Family> {
    vec![
        det("links", &["C11", "C08", "C10"], 25, |cx, r| links(cx, r).boxed()),
        mt("links-mt", &["C11", "C12"], 8, 4, |cx, r| links_mt(cx, r).boxed()),
        det("die-together", &["C12", "C11", "C07"], 25, |cx, r| die_together(cx, r).boxed()),
        mt("die-together-mt", &["C12", "C11"], 8, 4, |cx, r| die_together(cx, r).boxed()),
        mt("link-storm", &["C12", "C11"], 8, 6, |cx, r| link_storm(cx, r).boxed()),
        raw("link-threads", &["C12", "C27"], 4, link_threads),
    ]
}

struct Node {
    a: ActorRef<P>,
    seq: u64,
    default: bool,
    alive: bool,
}

/// One change at a time against a model of the graph.
async fn links(cx: Cx, mut r: Rng) {
    let mut nodes: BTreeMap<u32, Node> = BTreeMap::new();
    let mut adj: BTreeSet<(u32, u32)> = BTreeSet::new();
    let mut next = 1u32;
    let key = |a: u32, b: u32| (a.min(b), a.max(b));
    // How many events were judged
    let mut judged = 0;
    for _ in 0..r.range(8, 40) {
        let alive: Vec<u32> = nodes.iter().filter(|(_, n)| n.alive).map(|(k, _)| *k).collect();
        let mut hit: Option<(u32, Option<&'static str>)> = None;
        let pick = if alive.len() < 2 { 0 } else { r.below(14) };
        match pick {
            0 | 1 => {
                let n = next;
                next += 1;
                let default = r.chance(50);
                let mut plan = Plan { on_panic: Arc::new(|_| Dec::Default), ..Plan::resilient() };
                if default {
                    plan.on_link = Arc::new(|_| Dec::Default);
                }
                if r.chance(30) {
                    plan.link_steps = any_steps(&mut r);
                }
                if r.chance(30) {
                    plan.stop.steps = any_steps(&mut r);
                }
                match r.below(8) {
                    0 => plan.stop.out = Out::Fail(7),
                    1 => plan.stop.out = Out::PanicStr,
                    _ => {}
                }
                let fails = alive.len() > 1 && r.chance(15);
                if fails {
                    plan.start.out = if r.chance(50) { Out::Fail(70) } else { Out::PanicString(70) };
                }
                let p = P::new(&cx, n, plan);
                let cap = any_cap(&mut r);
                let a = match alive.is_empty() {
                    false if fails || r.chance(60) => {
                        let to = *r.pick(&alive);
                        adj.insert(key(n, to));
                        let to = nodes[&to].a.clone();
                        match r.below(3) {
                            0 => kameo::actor::spawn_link(&to, p).await,
                            1 => kameo::actor::spawn_link_with_mailbox(&to, p, mbox(cap)).await,
                            _ => {
                                let prepared = PreparedActor::new(mbox(cap));
                                let a = prepared.actor_ref().clone();
                                if r.chance(50) {
                                    to.link(&a).await;
                                } else {
                                    a.link(&to).await;
                                }
                                prepared.spawn(p);
                                a
                            }
                        }
                    }
                    _ => kameo::actor::spawn_with_mailbox(p, mbox(cap)),
                };
                let seq = a.id().sequence_id();
                if fails {
                    hit = Some((n, Some("?start")));
                }
                nodes.insert(n, Node { a, seq, default, alive: true });
            }
            2..=6 => {
                let (x, y) = (*r.pick(&alive), *r.pick(&alive));
                for _ in 0..r.range(1, 2) {
                    let (x, y) = if r.chance(50) { (x, y) } else { (y, x) };
                    nodes[&x].a.link(&nodes[&y].a).await;
                }
                if x != y {
                    adj.insert(key(x, y));
                }
            }
            7 | 8 => {
                let (x, y) = match adj.iter().nth(r.us(adj.len().max(1))) {
                    Some(&(x, y)) if r.chance(80) => (x, y),
                    _ => (*r.pick(&alive), *r.pick(&alive)),
                };
                let (x, y) = if r.chance(50) { (x, y) } else { (y, x) };
                nodes[&x].a.unlink(&nodes[&y].a).await;
                adj.remove(&key(x, y));
                if r.chance(15) {
                    nodes[&y].a.unlink(&nodes[&x].a).await;
                }
            }
            9 => {
                let x = *r.pick(&alive);
                nodes[&x].a.kill();
                hit = Some((x, Some("killed")));
            }
            10 => {
                let x = *r.pick(&alive);
                let _ = nodes[&x].a.stop_gracefully().await;
                hit = Some((x, Some("normal")));
            }
            11 => {
                let x = *r.pick(&alive);
                let out = any_panic(&mut r);
                let _ = nodes[&x].a.tell(Op::with(&cx, 1, any_steps(&mut r), out)).await;
                hit = Some((x, None));
                cx.evt(x, "expect", 0, 0, format!("panicked:{}", out_text(out)));
            }
            12 => {
                let x = *r.pick(&alive);
                let _ = nodes[&x].a.tell(Op::with(&cx, 1, any_steps(&mut r), Out::Fail(5))).await;
                hit = Some((x, None));
                cx.evt(x, "expect", 0, 0, "panicked:E(5)".into());
            }
            _ => {
                // Linked with itself, which is nothing
                let x = *r.pick(&alive);
                nodes[&x].a.link(&nodes[&x].a).await;
                if r.chance(50) {
                    nodes[&x].a.unlink(&nodes[&x].a).await;
                }
            }
        }
        cx.settle().await;
        let evs = cx.events();
        let reasons: HashMap<u32, String> = evs.iter().filter(|e| e.kind == "stop").map(|e| (e.who, e.text.clone())).collect();
        let dead: Vec<u32> = nodes.iter().filter(|(k, n)| n.alive && reasons.contains_key(k)).map(|(k, _)| *k).collect();
        // Why each ended
        for x in &dead {
            let got = &reasons[x];
            let own = match hit {
                Some((h, why)) if h == *x => match why {
                    Some("?start") => got.starts_with("panicked:"),
                    Some(w) => got == w,
                    None => evs.iter().rev().find(|e| e.who == *x && e.kind == "expect").map_or(false, |e| e.text == *got),
                },
                _ => false,
            };
            let by_link = nodes[x].default && dead.iter().any(|y| y != x && adj.contains(&key(*x, *y)) && reasons[y] != "normal" && *got == format!("link({},{})", nodes[y].seq, reasons[y]));
            cx.check(own || by_link, &["C11", "C08"], "unexplained-end", || format!("actor {x} ended with {got}, links {adj:?}, just done to {hit:?}"));
        }
        if let Some((x, _)) = hit {
            cx.check(dead.contains(&x), &["C11", "C07", "C06", "C10"], "did-not-end", || format!("actor {x} should have ended"));
        }
        // Who was told
        let told: Vec<(u32, u64, String)> = evs[judged..].iter().filter(|e| e.kind == "link").map(|e| (e.who, e.a, e.text.clone())).collect();
        judged = evs.len();
        for (who, seq, reason) in &told {
            let from = nodes.iter().find(|(_, n)| n.seq == *seq).map(|(k, _)| *k);
            let ok = from.map_or(false, |x| dead.contains(&x) && adj.contains(&key(x, *who)) && reasons[&x] == *reason);
            cx.check(ok, &["C11"], "wrong-notification", || format!("actor {who} was told that {from:?} (id {seq}) ended with {reason}; ended {dead:?} {reasons:?}, links {adj:?}"));
        }
        for x in &dead {
            for (y, n) in &nodes {
                if y == x || !n.alive {
                    continue;
                }
                let count = told.iter().filter(|t| t.0 == *y && t.1 == nodes[x].seq).count();
                let linked = adj.contains(&key(*x, *y));
                if dead.contains(y) {
                    cx.check(count <= 1, &["C11"], "notified-twice", || format!("actor {y} was told {count} times of {x}"));
                } else {
                    cx.check(count == linked as usize, &["C11"], if count == 0 { "not-notified" } else { "wrongly-notified" }, || {
                        format!("actor {x} ended with {}, actor {y} (linked: {linked}) was told {count} times", reasons[x])
                    });
                    cx.check(!(linked && n.default && reasons[x] != "normal"), &["C11"], "outlived-link", || format!("actor {y} goes on by default though linked {x} ended with {}", reasons[x]));
                }
            }
        }
        cx.stat("deaths", dead.len() as u64);
        cx.stat("notifications", told.len() as u64);
        for x in dead {
            nodes.get_mut(&x).unwrap().alive = false;
            adj.retain(|(a, b)| *a != x && *b != x);
        }
        // Nobody ended in secret
        for (k, n) in &nodes {
            cx.check(n.a.is_alive() == n.alive, &["C11", "C09"], "liveness", || format!("actor {k}: is_alive {}", n.a.is_alive()));
        }
    }
    for n in nodes.values() {
        n.a.kill();
    }
    cx.settle().await;
}

/// Concurrent linking and unlinking, each pair by one task, then deaths.
async fn links_mt(cx: Cx, mut r: Rng) {
    let n = r.range(3, 8) as u32;
    let nodes: Vec<ActorRef<P>> = (1..=n).map(|k| kameo::actor::spawn_with_mailbox(P::new(&cx, k, Plan::resilient()), mbox(any_cap(&mut r)))).collect();
    let mut pairs: Vec<(usize, usize)> = (0..nodes.len()).flat_map(|a| (0..a).map(move |b| (a, b))).collect();
    r.shuffle(&mut pairs);
    let k = r.range(2, 4) as usize;
    let mut tasks = vec![];
    for t in 0..k {
        let mine: Vec<_> = pairs.iter().copied().skip(t).step_by(k).collect();
        let (cx, nodes) = (cx.clone(), nodes.clone());
        let mut r = r.fork();
        tasks.push(tokio::spawn(async move {
            let mut on: BTreeMap<(usize, usize), bool> = BTreeMap::new();
            if mine.is_empty() {
                return on;
            }
            for _ in 0..r.range(3, 30) {
                let (a, b) = *r.pick(&mine);
                let (x, y) = if r.chance(50) { (a, b) } else { (b, a) };
                let link = r.chance(60);
                let _p = cx.pend(format!("link or unlink of {x} and {y}"));
                if link {
                    nodes[x].link(&nodes[y]).await;
                } else {
                    nodes[x].unlink(&nodes[y]).await;
                }
                on.insert((a, b), link);
                if r.chance(20) {
                    tokio::task::yield_now().await;
                }
            }
            on
        }));
    }
    let mut on = BTreeMap::new();
    for t in tasks {
        on.extend(t.await.unwrap());
    }
    let mut dying = vec![];
    for (i, a) in nodes.iter().enumerate() {
        if r.chance(50) {
            dying.push(i);
            cx.ev(i as u32 + 1, "kill", 0, 0);
            a.kill();
        }
    }
    for i in &dying {
        let _p = cx.pend(format!("shutdown of {i}"));
        nodes[*i].wait_for_shutdown().await;
    }
    // Each survivor is asked twice, by when it has handled what it was told
    for (i, a) in nodes.iter().enumerate() {
        if !dying.contains(&i) {
            let _p = cx.pend("ask of a survivor");
            let res = a.ask(Get).await;
            cx.check(res.is_ok(), &["C11"], "survivor-ended", || format!("{res:?}"));
        }
    }
    let evs = cx.events();
    for x in &dying {
        for y in 0..nodes.len() {
            let pair = if *x > y { (*x, y) } else { (y, *x) };
            let linked = on.get(&pair).copied().unwrap_or(false);
            let told: Vec<_> = evs.iter().filter(|e| e.who == y as u32 + 1 && e.kind == "link" && e.a == nodes[*x].id().sequence_id()).collect();
            if dying.contains(&y) {
                cx.check(told.len() <= linked as usize, &["C11"], "wrongly-notified", || format!("{told:?}"));
            } else {
                cx.check(told.len() == linked as usize && told.iter().all(|e| e.text == "killed"), &["C11"], if told.is_empty() { "not-notified" } else { "wrongly-notified" }, || {
                    format!("{x} was killed, {y} (linked: {linked}) was told {told:?}")
                });
            }
            cx.stat("pairs", 1);
        }
    }
    for a in &nodes {
        a.kill();
    }
}

/// Linked actors with mailboxes in any state end together, in every way.
async fn die_together(cx: Cx, mut r: Rng) {
    let n = r.range(2, 7) as u32;
    let gate = Arc::new(Semaphore::new(0));
    let mut nodes = vec![];
    let mut ends = vec![];
    for k in 1..=n {
        let mut plan = Plan::default();
        if r.chance(50) {
            plan.on_link = Arc::new(|_| Dec::Continue);
        }
        if r.chance(30) {
            plan.stop.steps = vec![Step::Sleep(r.range(1, 10))];
        }
        if r.chance(20) {
            plan.link_steps = vec![Step::Sleep(r.range(1, 10))];
        }
        let cap = *r.pick(&[1, 1, 2, 3, 0]);
        let prepared = PreparedActor::new(mbox(cap));
        let a = prepared.actor_ref().clone();
        let gated = r.chance(60);
        if gated {
            let _ = a.tell(Op::with(&cx, 1, vec![Step::Gate(gate.clone())], Out::Ok)).try_send();
        }
        ends.push(spawn_prepared(&cx, prepared, P::new(&cx, k, plan)));
        nodes.push((a, gated, cap));
    }
    let mut linked = BTreeSet::new();
    for i in 0..nodes.len() {
        for j in 0..i {
            if r.chance(70) {
                nodes[i].0.link(&nodes[j].0).await;
                linked.insert((i, j));
            }
        }
    }
    for (a, ..) in &nodes {
        a.wait_for_startup().await;
    }
    // Full mailboxes
    let mut tasks = vec![];
    for (a, _, cap) in &nodes {
        for _ in 0..*cap + 1 {
            let _ = a.tell(Op::with(&cx, 1, if r.chance(30) { any_steps(&mut r) } else { vec![] }, Out::Ok)).try_send();
        }
        if r.chance(40) {
            let (cx, a) = (cx.clone(), a.clone());
            tasks.push(tokio::spawn(async move {
                let _p = cx.pend("a waiting tell");
                let _ = a.tell(Op::new(&cx, 2)).await;
            }));
        }
    }
    // The end of all of them, at about the same time
    let mut order: Vec<usize> = (0..nodes.len()).collect();
    r.shuffle(&mut order);
    for i in order {
        let a = nodes[i].0.clone();
        let cx2 = cx.clone();
        let how = r.below(4);
        let mut r2 = r.fork();
        let k = i as u32 + 1;
        let gated = nodes[i].1;
        tasks.push(tokio::spawn(async move {
            if r2.chance(30) {
                cx2.pause(&mut r2).await;
            }
            let _p = cx2.pend(format!("ending {k} in way {how}"));
            match how {
                0 | 1 => {
                    cx2.ev(k, "kill", 0, 0);
                    a.kill();
                }
                2 => {
                    let _ = a.stop_gracefully().await;
                }
                _ => {
                    let _ = a.tell(Op::with(&cx2, 3, vec![], Out::PanicStr)).await;
                }
            }
            let _ = gated;
        }));
    }
    {
        // Those still held are let go later
        cx.sleep(r.below(10)).await;
        gate.add_permits(100);
    }
    for t in tasks {
        let _ = t.await;
    }
    for (i, (a, ..)) in nodes.iter().enumerate() {
        let _p = cx.pend(format!("shutdown of {}", i + 1));
        a.wait_for_shutdown().await;
    }
    for e in ends {
        let _p = cx.pend("end of actor");
        let _ = e.await;
    }
    let evs = cx.events();
    for i in 0..nodes.len() {
        for j in 0..nodes.len() {
            let pair = (i.max(j), i.min(j));
            let told = evs.iter().filter(|e| e.who == j as u32 + 1 && e.kind == "link" && e.a == nodes[i].0.id().sequence_id()).count();
            cx.check(told <= linked.contains(&pair) as usize, &["C11"], "wrongly-notified", || format!("{j} was told {told} times of the end of {i}"));
        }
    }
    check(&cx, &msgs(), &Opts { caps: HashMap::new(), all_ended: true, det: cx.det() });
}

/// Tasks link and unlink everything while everything ends.
async fn link_storm(cx: Cx, mut r: Rng) {
    let n = r.range(2, 6) as u32;
    let nodes: Vec<ActorRef<P>> = (1..=n)
        .map(|k| {
            let plan = if r.chance(50) { Plan::default() } else { Plan::resilient() };
            kameo::actor::spawn_with_mailbox(P::new(&cx, k, plan), mbox(*r.pick(&[0, 1, 1, 2])))
        })
        .collect();
    let mut tasks = vec![];
    for _ in 0..r.range(3, 6) {
        let (cx, nodes) = (cx.clone(), nodes.clone());
        let mut r = r.fork();
        tasks.push(tokio::spawn(async move {
            for _ in 0..r.range(10, 60) {
                let (x, y) = (r.us(nodes.len()), r.us(nodes.len()));
                let _p = cx.pend("link or unlink");
                match r.below(20) {
                    0..=10 => nodes[x].link(&nodes[y]).await,
                    11..=17 => nodes[x].unlink(&nodes[y]).await,
                    18 => {
                        let _ = nodes[x].tell(Op::new(&cx, 1)).await;
                    }
                    _ => tokio::task::yield_now().await,
                }
            }
        }));
    }
    for (i, a) in nodes.iter().enumerate() {
        let (cx, a) = (cx.clone(), a.clone());
        let mut r = r.fork();
        tasks.push(tokio::spawn(async move {
            for _ in 0..r.below(30) {
                tokio::task::yield_now().await;
            }
            let _p = cx.pend("ending an actor");
            match r.below(3) {
                0 => {
                    cx.ev(i as u32 + 1, "kill", 0, 0);
                    a.kill()
                }
                1 => {
                    let _ = a.stop_gracefully().await;
                }
                _ => {
                    let _ = a.tell(Op::with(&cx, 3, vec![], Out::PanicString(3))).await;
                    // Recovered from by half of them
                    cx.pause(&mut r).await;
                    a.kill();
                }
            }
        }));
    }
    for t in tasks {
        let _p = cx.pend("task");
        let _ = t.await;
    }
    for a in &nodes {
        let _p = cx.pend("shutdown");
        a.wait_for_shutdown().await;
    }
    let evs = cx.events();
    for (i, a) in nodes.iter().enumerate() {
        for k in 1..=n {
            let told = evs.iter().filter(|e| e.who == k && e.kind == "link" && e.a == a.id().sequence_id()).count();
            cx.check(told <= (i as u32 + 1 != k) as usize, &["C11"], "notified-twice", || format!("{k} was told {told} times of the end of {}", i + 1));
        }
    }
    cx.stat("actors", n as u64);
}

/// Blocking and async linking from threads outside the runtime, in both directions at once.
fn link_threads(cx: Cx, mut r: Rng) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_time().build().unwrap();
    let n = r.range(2, 4) as u32;
    let nodes: Vec<ActorRef<P>> = {
        let _g = rt.enter();
        (1..=n)
            .map(|k| kameo::actor::spawn_with_mailbox(P::new(&cx, k, Plan::resilient()), mbox(any_cap(&mut r))))
            .collect()
    };
    let threads = r.range(2, 4) as usize;
    let barrier = Arc::new(Barrier::new(threads));
    let pairs: Vec<(usize, usize)> = (0..nodes.len()).flat_map(|a| (0..a).map(move |b| (a, b))).collect();
    let mut hs = vec![];
    for t in 0..threads {
        let (cx, nodes, barrier, pairs) = (cx.clone(), nodes.clone(), barrier.clone(), pairs.clone());
        let mut r = r.fork();
        let handle = rt.handle().clone();
        hs.push(std::thread::spawn(move || {
            barrier.wait();
            let mut on = BTreeMap::new();
            for _ in 0..r.range(20, 200) {
                let i = r.us(pairs.len());
                let (a, b) = pairs[i];
                let (x, y) = if r.chance(50) { (a, b) } else { (b, a) };
                // Each pair belongs to one thread
                let link = if i % threads == t { r.chance(60) } else { continue };
                let _p = cx.pend("blocking link or unlink");
                match (r.chance(70), link) {
                    (true, true) => nodes[x].blocking_link(&nodes[y]),
                    (true, false) => nodes[x].blocking_unlink(&nodes[y]),
                    (false, true) => handle.block_on(nodes[x].link(&nodes[y])),
                    (false, false) => handle.block_on(nodes[x].unlink(&nodes[y])),
                }
                on.insert((a, b), link);
            }
            on
        }));
    }
    let mut on = BTreeMap::new();
    for h in hs {
        match h.join() {
            Ok(m) => on.extend(m),
            Err(_) => cx.fail(&["C12", "C27"], "blocking-link-panicked", "a thread which links panicked"),
        }
    }
    let x = r.us(nodes.len());
    nodes[x].kill();
    rt.block_on(async {
        let _p = cx.pend("shutdown");
        nodes[x].wait_for_shutdown().await;
        for (y, a) in nodes.iter().enumerate() {
            if y != x {
                let _p = cx.pend("ask");
                let _ = a.ask(Get).await;
            }
        }
    });
    let evs = cx.events();
    for y in 0..nodes.len() {
        let pair = (x.max(y), x.min(y));
        let linked = on.get(&pair).copied().unwrap_or(false);
        let told = evs.iter().filter(|e| e.who == y as u32 + 1 && e.kind == "link" && e.a == nodes[x].id().sequence_id()).count();
        cx.check(told == linked as usize, &["C11", "C27"], if told == 0 { "not-notified" } else { "wrongly-notified" }, || format!("{x} was killed; {y} (linked: {linked}) was told {told} times"));
    }
    cx.ev(0, "pairs", on.len() as u64, 0);
    for a in &nodes {
        a.kill();
    }
    rt.shutdown_background();
}
