//! Messaging and lifecycle under random programs.
use std::{collections::HashMap, sync::Arc};

use futures::FutureExt;
use kameo::prelude::*;

use crate::{core::*, det, history::*, mt, probe::*, Family};

pub fn families() -> Vec<Family> {
    vec![
        det("chaos", &["C01", "C02", "C03", "C04", "C06", "C07", "C08", "C10"], 30, |cx, r| chaos(cx, r).boxed()),
        mt("chaos-mt", &["C01", "C02", "C03", "C04", "C06", "C08", "C10"], 10, 3, |cx, r| chaos(cx, r).boxed()),
        det("fifo", &["C01", "C03", "C13"], 20, |cx, r| fifo(cx, r).boxed()),
        mt("fifo-mt", &["C01", "C03", "C26"], 6, 4, |cx, r| fifo(cx, r).boxed()),
    ]
}

fn any_plan(cx: &Cx, r: &mut Rng) -> Plan {
    let mut plan = Plan::default();
    if r.chance(50) {
        plan.start.steps = any_steps(r);
    }
    if r.chance(12) {
        plan.start.out = if r.chance(50) { Out::Fail(r.below(100)) } else { any_panic(r) };
    }
    if r.chance(20) {
        plan.stop.steps = any_steps(r);
    }
    if r.chance(10) {
        plan.stop.out = if r.chance(50) { Out::Fail(r.below(100)) } else { any_panic(r) };
    }
    if r.chance(30) {
        plan.panic_steps = any_steps(r);
    }
    // How many panics are recovered from before the default applies
    let k = if r.chance(70) { r.below(20) } else { 0 };
    let last = r.below(4);
    plan.on_panic = Arc::new(move |i| {
        if i < k {
            return Dec::Continue;
        }
        match last {
            0 => Dec::Default,
            1 => Dec::Err(7),
            2 => Dec::Panic,
            _ => Dec::Break(ActorStopReason::Panicked(PanicError::new(Box::new(E(5))))),
        }
    });
    let _ = cx;
    plan
}

fn any_out(r: &mut Rng, p: u64) -> Out {
    if !r.chance(p) {
        Out::Ok
    } else if r.chance(50) {
        Out::Fail(r.below(1000))
    } else {
        any_panic(r)
    }
}

/// Several actors of every kind, several clients doing anything to them, until everything has ended.
async fn chaos(cx: Cx, mut r: Rng) {
    let ms = msgs();
    let mut caps = HashMap::new();
    let mut refs: Vec<(u32, ActorRef<P>)> = vec![];
    let mut ends = vec![];
    let bad = *r.pick(&[0, 0, 10, 30]);
    for n in 1..=r.range(1, 3) as u32 {
        let cap = any_cap(&mut r);
        caps.insert(n, cap);
        let prepared = PreparedActor::new(mbox(cap));
        let a = prepared.actor_ref().clone();
        let mut plan = any_plan(&cx, &mut r);
        // Messages the actor sends itself while starting
        let selfs = if r.chance(30) { r.range(1, 4) } else { 0 };
        for _ in 0..selfs {
            let op = Op::with(&cx, 1000 + n as u64, any_steps(&mut r), any_out(&mut r, bad));
            let (cx2, ms2) = (cx.clone(), ms.clone());
            plan.start.steps.push(do_step(move |me| {
                let (cx, ms, op) = (cx2.clone(), ms2.clone(), op.clone());
                async move {
                    // Waiting for space in its own mailbox would never end
                    rsend(&cx, &ms, n, V::TellTry, &me, op).await;
                }
                .boxed()
            }));
        }
        r.shuffle(&mut plan.start.steps);
        // Messages sent before it runs
        for _ in 0..r.below(3) {
            let op = Op::with(&cx, 2000, any_steps(&mut r), any_out(&mut r, bad));
            rsend(&cx, &ms, n, V::TellTry, &a, op).await;
        }
        ends.push(spawn_prepared(&cx, prepared, P::new(&cx, n, plan)));
        refs.push((n, a));
    }
    let mut tasks = vec![];
    for c in 0..r.range(1, 5) {
        let (cx, ms, refs) = (cx.clone(), ms.clone(), refs.clone());
        let mut r = r.fork();
        let steps = r.range(2, 14);
        let hostile = r.chance(35);
        tasks.push(tokio::spawn(async move {
            {
                let mut pend: Vec<(u32, u64, PendFut)> = vec![];
                for _ in 0..steps {
                    cx.pause(&mut r).await;
                    let (n, a) = r.pick(&refs);
                    let n = *n;
                    match r.below(100) {
                        0..=5 if hostile => {
                            cx.ev(n, "kill", 0, 0);
                            a.kill();
                        }
                        6..=11 if hostile => {
                            let id = cx.uid();
                            let _p = cx.pend(format!("stop_gracefully of actor {n}"));
                            cx.ev(n, "stop_call", id, 0);
                            let res = a.stop_gracefully().await;
                            cx.ev(n, "stop_ret", id, res.is_ok() as u64);
                        }
                        12..=16 => {
                            let _p = cx.pend(format!("wait_for_startup of actor {n}"));
                            a.wait_for_startup().await;
                            let started = cx.events().iter().any(|e| e.who == n && matches!(e.kind, "start_end" | "start_out"));
                            cx.check(started, &["C05"], "startup-wait-early", || format!("actor {n}"));
                        }
                        17..=24 if !pend.is_empty() => {
                            let i = r.us(pend.len());
                            let (n, uid, p) = pend.remove(i);
                            if r.chance(20) {
                                drop(p);
                                continue;
                            }
                            let _p = cx.pend(format!("queued reply of message {uid} of actor {n}"));
                            let res = p.await;
                            done(&cx, &ms, n, uid, res);
                        }
                        _ => {
                            let mut steps = any_steps(&mut r);
                            // A message to the other actors
                            if r.chance(15) {
                                let (m, b) = r.pick(&refs).clone();
                                let op = Op::with(&cx, 3000 + c, any_steps(&mut r), Out::Ok);
                                let (cx2, ms2) = (cx.clone(), ms.clone());
                                let from = 10_000 + op.uid;
                                steps.push(do_step(move |_| {
                                    let (cx, ms, mut op, b) = (cx2.clone(), ms2.clone(), op.clone(), b.clone());
                                    op.from = from;
                                    async move {
                                        rsend(&cx, &ms, m, V::TellTry, &b, op).await;
                                    }
                                    .boxed()
                                }));
                            }
                            let op = Op::with(&cx, c + 1, steps, any_out(&mut r, bad));
                            let v = V::any(&mut r);
                            if let Some((uid, p)) = rsend(&cx, &ms, n, v, a, op).await {
                                pend.push((n, uid, p));
                            }
                        }
                    }
                }
                for (n, uid, p) in pend {
                    let _p = cx.pend(format!("queued reply of message {uid} of actor {n}"));
                    let res = p.await;
                    done(&cx, &ms, n, uid, res);
                }
            }
            drop(refs);
        }));
    }
    drop(refs);
    for t in tasks {
        let _ = t.await;
    }
    // No reference is left, so all of them end
    for (i, e) in ends.into_iter().enumerate() {
        let _p = cx.pend(format!("end of unreferenced actor {i}"));
        let _ = e.await;
    }
    check(&cx, &ms, &Opts { caps, all_ended: true, det: cx.det() });
}

/// Many senders, one actor, no failures but recovered panics: every message, in order, once.
async fn fifo(cx: Cx, mut r: Rng) {
    let ms = msgs();
    let cap = any_cap(&mut r);
    let mut plan = Plan::resilient();
    if r.chance(40) {
        plan.start.steps = any_steps(&mut r);
    }
    let bad = *r.pick(&[0, 0, 0, 20]);
    let prepared = PreparedActor::new(mbox(cap));
    let a = prepared.actor_ref().clone();
    let mut tasks = vec![];
    let senders = r.range(1, 5);
    let mut start = Some(prepared);
    let before = r.chance(30) && cap == 0;
    let mut end = None;
    let p = P::new(&cx, 1, plan);
    let mut p = Some(p);
    if !before {
        end = Some(spawn_prepared(&cx, start.take().unwrap(), p.take().unwrap()));
    }
    for c in 1..=senders {
        let (cx, ms, a) = (cx.clone(), ms.clone(), a.clone());
        let mut r = r.fork();
        tasks.push(tokio::spawn(async move {
            {
                let a = a;
                let mut pend: Vec<(u64, PendFut)> = vec![];
                for _ in 0..r.range(3, 15) {
                    if r.chance(40) {
                        cx.pause(&mut r).await;
                    }
                    let mut op = Op::with(&cx, c, any_steps(&mut r), any_out(&mut r, bad));
                    let v = if before { *r.pick(&[V::Tell, V::TellTry, V::Enq, V::TryEnq, V::RecTry]) } else { V::any_plain(&mut r) };
                    loop {
                        let (uid, steps, out) = (op.uid, op.act.clone(), op.out);
                        if let Some((uid, p)) = rsend(&cx, &ms, 1, v, &a, op).await {
                            pend.push((uid, p));
                            break;
                        }
                        let full = matches!(ms.lock().unwrap().get(&uid).and_then(|m| m.res.clone()), Some(Res::Full(_)));
                        if !full {
                            break;
                        }
                        cx.sleep(1).await;
                        op = Op::with(&cx, c, (*steps).clone(), out);
                    }
                    if !before && !pend.is_empty() && r.chance(40) {
                        let i = r.us(pend.len());
                        let (uid, p) = pend.remove(i);
                        let _p = cx.pend(format!("queued reply {uid}"));
                        let res = p.await;
                        done(&cx, &ms, 1, uid, res);
                    }
                }
                r.shuffle(&mut pend);
                for (uid, p) in pend {
                    if r.chance(15) {
                        drop(p);
                        continue;
                    }
                    let _p = cx.pend(format!("queued reply {uid}"));
                    let res = p.await;
                    done(&cx, &ms, 1, uid, res);
                }
            }
        }));
    }
    if before {
        cx.settle().await;
        end = Some(spawn_prepared(&cx, start.take().unwrap(), p.take().unwrap()));
    }
    for t in tasks {
        let _p = cx.pend("sender");
        let _ = t.await;
    }
    if r.chance(50) {
        let id = cx.uid();
        cx.ev(1, "stop_call", id, 0);
        let res = a.stop_gracefully().await;
        cx.ev(1, "stop_ret", id, res.is_ok() as u64);
        cx.check(res.is_ok(), &["C06"], "stop-refused", || format!("{res:?}"));
    }
    drop(a);
    let _p = cx.pend("end of actor");
    if let Some(e) = end {
        let _ = e.await;
    }
    // All accepted messages were handled, each once
    let n_h = cx.events().iter().filter(|e| e.kind == "h").count();
    let acc = ms.lock().unwrap().values().filter(|m| m.acc.is_some()).count();
    cx.check(n_h == acc, &["C01"], "accepted-and-handled-differ", || format!("{acc} accepted, {n_h} handled"));
    check(&cx, &ms, &Opts { caps: HashMap::from([(1, cap)]), all_ended: true, det: cx.det() });
}
