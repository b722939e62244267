//! The same program through actor references and through recipients.
use std::sync::Arc;

use futures::FutureExt;
use kameo::prelude::*;
use tokio::sync::Semaphore;

use crate::{core::*, det, probe::*, raw, Family};

pub fn families() -> Vec<Family> {
    vec![
        det("recipients", &["C16"], 25, |cx, r| recipients(cx, r).boxed()),
        raw("recipient-threads", &["C16", "C27"], 3, recipient_threads),
    ]
}

#[derive(Clone)]
enum Strong {
    A(ActorRef<P>),
    R(Recipient<Op>),
}

#[derive(Clone)]
enum Weak {
    A(WeakActorRef<P>),
    R(WeakRecipient<Op>),
}

macro_rules! on {
    ($s:expr, $t:ident, $x:ident => $e:expr) => {
        match $s {
            $t::A($x) => $e,
            $t::R($x) => $e,
        }
    };
}

fn text<M>(r: &Result<(), SendError<M>>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(SendError::ActorNotRunning(_)) => "not running".into(),
        Err(SendError::MailboxFull(_)) => "full".into(),
        Err(SendError::Timeout(m)) => format!("timeout {}", m.is_some()),
        Err(SendError::ActorStopped) => "stopped".into(),
        Err(SendError::HandlerError(_)) => "handler".into(),
    }
}
fn back(r: Result<(), SendError<Op>>) -> String {
    let t = text(&r);
    match r {
        Err(SendError::ActorNotRunning(m) | SendError::MailboxFull(m) | SendError::Timeout(Some(m))) => format!("{t} {} {}", m.uid, m.intact()),
        _ => t,
    }
}

async fn program(cx: Cx, seed: u64, as_recipient: bool) {
    let mut r = Rng::new(seed);
    let cap = any_cap(&mut r);
    let gate = Arc::new(Semaphore::new(0));
    let mut plan = if r.chance(70) { Plan::resilient() } else { Plan::default() };
    if r.chance(50) {
        plan.start.steps = any_steps(&mut r);
    }
    if r.chance(40) {
        plan.stop.steps = any_steps(&mut r);
    }
    if r.chance(10) {
        plan.start.out = Out::Fail(4);
    }
    let prepared = PreparedActor::new(mbox(cap));
    let id = prepared.actor_ref().id();
    let first = prepared.actor_ref().clone();
    let first = if as_recipient { Strong::R(first.recipient()) } else { Strong::A(first) };
    let end = spawn_prepared(&cx, prepared, P::new(&cx, 1, plan));
    let mut tasks = vec![];
    for c in 1..=r.range(1, 4) {
        let (cx, gate) = (cx.clone(), gate.clone());
        let mut r = r.fork();
        let mut mine = vec![first.clone()];
        let mut weak: Vec<Weak> = vec![];
        tasks.push(tokio::spawn(async move {
            for _ in 0..r.range(2, 14) {
                if r.chance(40) {
                    cx.pause(&mut r).await;
                }
                let steps = |r: &mut Rng, cx: &Cx| {
                    if r.chance(10) {
                        vec![Step::Gate(gate.clone())]
                    } else if r.chance(30) {
                        let cx = cx.clone();
                        vec![do_step(move |me| {
                            // Whether it's the actor which is running
                            let cur = if as_recipient { me.recipient::<Op>().is_current() } else { me.is_current() };
                            cx.ev(1, "current", cur as u64, 0);
                            async {}.boxed()
                        })]
                    } else {
                        any_steps(r)
                    }
                };
                let out = if r.chance(10) { any_panic(&mut r) } else if r.chance(10) { Out::Fail(1) } else { Out::Ok };
                let kind = r.below(22);
                let i = r.us(mine.len().max(1));
                let Some(s) = mine.get(i) else {
                    let up = weak.last().and_then(|w| match w {
                        Weak::A(w) => w.upgrade().map(Strong::A),
                        Weak::R(w) => w.upgrade().map(Strong::R),
                    });
                    cx.ev(c as u32 + 10, "op", 100, up.is_some() as u64);
                    match up {
                        Some(s) => mine.push(s),
                        None => break,
                    }
                    continue;
                };
                let t = r.range(1, 30);
                let _p = cx.pend(format!("operation {kind}, as recipient: {as_recipient}"));
                let res = match kind {
                    0..=2 => {
                        let op = Op::with(&cx, c, steps(&mut r, &cx), out);
                        back(on!(s, Strong, s => s.tell(op).send().await))
                    }
                    3 => {
                        let op = Op::with(&cx, c, steps(&mut r, &cx), out);
                        back(on!(s, Strong, s => s.tell(op).await))
                    }
                    4 | 5 => {
                        let op = Op::with(&cx, c, steps(&mut r, &cx), out);
                        back(on!(s, Strong, s => s.tell(op).try_send()))
                    }
                    6 | 7 => {
                        let op = Op::with(&cx, c, steps(&mut r, &cx), out);
                        back(on!(s, Strong, s => s.tell(op).mailbox_timeout(cx.dur(t)).send().await))
                    }
                    8 => {
                        let op = Op::with(&cx, c, steps(&mut r, &cx), out);
                        back(on!(s, Strong, s => s.tell(op).mailbox_timeout(cx.dur(t)).await))
                    }
                    9 => format!("{} {}", on!(s, Strong, s => s.strong_count()), on!(s, Strong, s => s.weak_count())),
                    10 => format!("{} {} {}", on!(s, Strong, s => s.is_alive()), on!(s, Strong, s => s.is_current()), on!(s, Strong, s => s.id()) == id),
                    11 => {
                        let s = s.clone();
                        mine.push(s);
                        "clone".into()
                    }
                    12 => {
                        mine.swap_remove(i);
                        "drop".into()
                    }
                    13 | 14 => {
                        weak.push(match s {
                            Strong::A(a) => Weak::A(a.downgrade()),
                            Strong::R(a) => Weak::R(a.downgrade()),
                        });
                        "downgrade".into()
                    }
                    15 => match weak.last().cloned() {
                        Some(w) => {
                            let up = match &w {
                                Weak::A(w) => w.upgrade().map(Strong::A),
                                Weak::R(w) => w.upgrade().map(Strong::R),
                            };
                            let t = format!(
                                "{} {} {} {}",
                                up.is_some(),
                                on!(&w, Weak, w => w.strong_count()),
                                on!(&w, Weak, w => w.weak_count()),
                                on!(&w, Weak, w => w.id()) == id
                            );
                            mine.extend(up);
                            if r.chance(40) {
                                weak.push(w);
                            }
                            t
                        }
                        None => "none".into(),
                    },
                    16 => {
                        weak.pop();
                        "drop weak".into()
                    }
                    17 => {
                        gate.add_permits(3);
                        "gate".into()
                    }
                    18 => {
                        tokio::time::timeout(cx.dur(40), async { on!(s, Strong, s => s.wait_for_startup().await) }).await.is_ok().to_string()
                    }
                    19 => {
                        tokio::time::timeout(cx.dur(t), async { on!(s, Strong, s => s.wait_for_shutdown().await) }).await.is_ok().to_string()
                    }
                    20 => {
                        if r.chance(30) {
                            text(&on!(s, Strong, s => s.stop_gracefully().await))
                        } else {
                            "nothing".into()
                        }
                    }
                    _ => {
                        if r.chance(20) {
                            on!(s, Strong, s => s.kill());
                        }
                        "kill".into()
                    }
                };
                cx.evt(c as u32 + 10, "op", kind, 0, res);
            }
            drop(mine);
            // Held to the end, to see what they say of an ended actor
            weak
        }));
    }
    drop(first);
    cx.sleep(60).await;
    gate.add_permits(1000);
    let mut weak = vec![];
    for t in tasks {
        let _p = cx.pend(format!("client, as recipient: {as_recipient}"));
        if let Ok(w) = t.await {
            weak.extend(w);
        } else {
            cx.ev(0, "client_panicked", 0, 0);
        }
    }
    {
        let _p = cx.pend(format!("end of actor, as recipient: {as_recipient}"));
        let _ = end.await;
    }
    for w in &weak {
        let up = match w {
            Weak::A(w) => w.upgrade().is_some(),
            Weak::R(w) => w.upgrade().is_some(),
        };
        cx.evt(0, "after", up as u64, 0, format!("{} {} {}", on!(w, Weak, w => w.strong_count()), on!(w, Weak, w => w.weak_count()), on!(w, Weak, w => w.id()) == id));
    }
}

async fn recipients(cx: Cx, mut r: Rng) {
    let seed = r.next();
    let mut logs: Vec<Vec<String>> = vec![];
    for as_recipient in [false, true] {
        let sub = Cx::new(Mode::Det, &cx.0.family, cx.0.case);
        let _p = cx.pend(format!("program, as recipient: {as_recipient}"));
        program(sub.clone(), seed, as_recipient).await;
        for v in sub.violations() {
            if v.sig == "actor-task-failed" {
                cx.fail(&["C16"], "actor-task-failed", v.detail);
            }
        }
        let h = sub.history();
        if !as_recipient {
            for e in sub.events() {
                cx.evt(e.who, e.kind, e.a, e.b, e.text);
            }
        }
        logs.push(h);
    }
    let at = logs[0].iter().zip(&logs[1]).position(|(a, b)| a != b).or((logs[0].len() != logs[1].len()).then(|| logs[0].len().min(logs[1].len())));
    if let Some(i) = at {
        let what = logs[0].get(i).or(logs[1].get(i)).map(|l| l.split_whitespace().nth(3).unwrap_or("").to_string()).unwrap_or_default();
        cx.fail(&["C16"], &format!("recipient-differs:{what}"), format!("with references: {:?}, with recipients: {:?}", logs[0].get(i), logs[1].get(i)));
        for l in &logs[1] {
            cx.evt(99, "with_recipient", 0, 0, l.clone());
        }
    }
    cx.stat("programs_compared", 1);
}

/// Blocking sends from threads, of both.
fn recipient_threads(cx: Cx, mut r: Rng) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_time().build().unwrap();
    let cap = any_cap(&mut r);
    let a = {
        let _g = rt.enter();
        kameo::actor::spawn_with_mailbox(P::new(&cx, 1, Plan::resilient()), mbox(cap))
    };
    let mut hs = vec![];
    for t in 0..r.range(2, 4) {
        let rec = a.clone().recipient::<Op>();
        let a = a.clone();
        let cx = cx.clone();
        let mut r = r.fork();
        hs.push(std::thread::spawn(move || {
            let mut sent = vec![];
            for k in 0..r.range(1, 20) {
                let out = if r.chance(10) { any_panic(&mut r) } else { Out::Ok };
                let op = Op::with(&cx, t + 1, vec![], out);
                let uid = op.uid;
                let _p = cx.pend("blocking send");
                let (kind, res) = if r.chance(70) {
                    (0, rec.tell(op).blocking_send())
                } else if r.chance(50) {
                    (1, a.tell(op).blocking_send())
                } else {
                    (2, rec.tell(op).try_send())
                };
                match res {
                    Ok(()) => sent.push(uid),
                    Err(SendError::MailboxFull(m)) if kind == 2 && cap > 0 && m.uid == uid => {}
                    Err(e) => cx.fail(&["C16", "C27"], "blocking-send-failed", format!("{kind} {k}: {e:?}")),
                }
            }
            sent
        }));
    }
    let sent: Vec<Vec<u64>> = hs.into_iter().map(|h| h.join().unwrap_or_default()).collect();
    rt.block_on(async {
        let _p = cx.pend("ask");
        let _ = a.ask(Get).await;
    });
    let handled: Vec<u64> = cx.events().iter().filter(|e| e.kind == "h").map(|e| e.a).collect();
    let mut all: Vec<u64> = sent.iter().flatten().copied().collect();
    all.sort();
    let mut h2 = handled.clone();
    h2.sort();
    cx.check(all == h2, &["C16", "C27", "C01"], "accepted-not-handled", || format!("sent {all:?}, handled {h2:?}"));
    for s in &sent {
        let order: Vec<u64> = handled.iter().copied().filter(|u| s.contains(u)).collect();
        cx.check(order == *s, &["C16", "C27", "C01"], "out-of-order", || format!("sent {s:?}, handled {order:?}"));
    }
    a.kill();
    drop(a);
    rt.shutdown_background();
}
