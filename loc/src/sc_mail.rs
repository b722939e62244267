//! Mailbox capacity, timeouts, and the result of every way of sending in every state of the actor.
use std::{collections::HashMap, sync::Arc};

use futures::FutureExt;
use kameo::prelude::*;
use tokio::sync::Semaphore;

use crate::{core::*, det, history::*, mt, probe::*, Family};

pub fn families() -> Vec<Family> {
    vec![
        det("states", &["C02", "C03", "C13"], 25, |cx, r| states(cx, r).boxed()),
        det("capacity", &["C13", "C02"], 25, |cx, r| capacity(cx, r).boxed()),
        det("waiters", &["C13", "C01"], 20, |cx, r| waiters(cx, r).boxed()),
        det("reply-timeout", &["C13", "C03", "C02"], 20, |cx, r| reply_timeout(cx, r).boxed()),
        mt("race-end", &["C02", "C03", "C01"], 10, 4, |cx, r| race_end(cx, r).boxed()),
    ]
}

const EVERY: &[V] = &[
    V::Tell,
    V::TellAwait,
    V::TellTry,
    V::TellMt(7),
    V::Rec,
    V::RecAwait,
    V::RecTry,
    V::RecMt(9),
    V::Ask,
    V::AskAwait,
    V::AskTry,
    V::AskMt(5),
    V::AskRt(11),
    V::AskBoth(6, 13),
    V::AskTryRt(12),
    V::Enq,
    V::EnqMt(8),
    V::TryEnq,
    V::EnqRt(10),
];

pub fn tweak(v: V, r: &mut Rng) -> V {
    let n = r.range(1, 50);
    let m = r.range(1, 50);
    match v {
        V::TellMt(_) => V::TellMt(n),
        V::RecMt(_) => V::RecMt(n),
        V::AskMt(_) => V::AskMt(n),
        V::AskRt(_) => V::AskRt(n),
        V::AskBoth(..) => V::AskBoth(n, m),
        V::AskTryRt(_) => V::AskTryRt(n),
        V::EnqMt(_) => V::EnqMt(n),
        V::EnqRt(_) => V::EnqRt(n),
        v => v,
    }
}

fn expect(cx: &Cx, props: &'static [&'static str], state: &str, v: V, got: &Res, want: &Res) {
    let name = format!("{v:?}").split('(').next().unwrap_or("").to_string();
    cx.check(got == want, props, &format!("state-{state}-{name}"), || format!("in state {state}, {v:?} gave {got:?} instead of {want:?}"));
}

/// Every way of sending, in one state of the actor, has one right result.
async fn states(cx: Cx, mut r: Rng) {
    let cap = any_cap(&mut r);
    let state = *r.pick(&["starting", "idle", "busy", "full", "stopping", "ended", "killed", "failed-start"]);
    let ms = msgs();
    let gate = Arc::new(Semaphore::new(0));
    let mut plan = Plan::resilient();
    match state {
        "starting" => plan.start.steps = vec![Step::Gate(gate.clone())],
        "stopping" => plan.stop.steps = vec![Step::Gate(gate.clone())],
        "failed-start" => plan.start.out = Out::Fail(3),
        _ => {}
    }
    if state == "failed-start" {
        plan.on_panic = Arc::new(|_| Dec::Default);
    }
    let prepared = PreparedActor::new(mbox(cap));
    let a = prepared.actor_ref().clone();
    let end = spawn_prepared(&cx, prepared, P::new(&cx, 1, plan));
    cx.settle().await;
    match state {
        "busy" | "full" | "killed" => {
            // The handler waits at the gate
            let op = Op::with(&cx, 1, vec![Step::Gate(gate.clone())], Out::Ok);
            rsend(&cx, &ms, 1, V::Tell, &a, op).await;
            cx.settle().await;
            if state == "full" && cap > 0 {
                for _ in 0..cap {
                    let op = Op::new(&cx, 2);
                    rsend(&cx, &ms, 1, V::TellTry, &a, op).await;
                }
            }
            if state == "killed" {
                cx.ev(1, "kill", 0, 0);
                a.kill();
                let _p = cx.pend("shutdown of a killed actor");
                a.wait_for_shutdown().await;
            }
        }
        "stopping" | "ended" => {
            cx.ev(1, "stop_call", 1, 0);
            let res = a.stop_gracefully().await;
            cx.ev(1, "stop_ret", 1, res.is_ok() as u64);
            cx.settle().await;
            if state == "ended" {
                let _p = cx.pend("shutdown of a stopped actor");
                a.wait_for_shutdown().await;
            }
        }
        "failed-start" => {
            let _p = cx.pend("shutdown of an actor which failed to start");
            a.wait_for_shutdown().await;
        }
        _ => {}
    }
    let alive = !matches!(state, "ended" | "killed" | "failed-start");
    cx.check(a.is_alive() == alive, &["C02", "C05"], "is-alive", || format!("in state {state} is_alive is {}", a.is_alive()));
    let space = cap == 0 || !matches!(state, "full");
    let running = matches!(state, "idle");
    let mut vs = EVERY.to_vec();
    r.shuffle(&mut vs);
    // One at a time: what it does must not depend on the others, so the ones which would block get their own actor
    let v = tweak(vs[0], &mut r);
    let out = if r.chance(30) { Out::Fail(r.below(50)) } else { Out::Ok };
    let op = Op::with(&cx, 3, vec![], out);
    let uid = op.uid;
    let begin = cx.ms();
    let a2 = a.clone();
    let (cx2, ms2) = (cx.clone(), ms.clone());
    let sender = tokio::spawn(async move {
        if let Some((uid, p)) = rsend(&cx2, &ms2, 1, v, &a2, op).await {
            let res = p.await;
            done(&cx2, &ms2, 1, uid, res);
        }
    });
    // Everything but virtual time is done
    cx.sleep(100).await;
    let now = ms.lock().unwrap().get(&uid).cloned();
    let now = now.unwrap();
    let back = if v.returns_msg() { Some(uid) } else { None };
    let props: &'static [&'static str] = &["C02", "C13", "C03"];
    let replied = match out {
        Out::Fail(n) => Res::HandlerErr(E(n)),
        _ => Res::Reply(answer(uid)),
    };
    if !alive {
        match &now.res {
            Some(res) => expect(&cx, &["C02"], state, v, res, &Res::NotRunning(back)),
            None => cx.fail(&["C02", "C03"], &format!("state-{state}-pending"), format!("{v:?} to an actor which isn't running is still waiting")),
        }
    } else if !space {
        let waits = v.mailbox_timeout();
        if v.is_try() {
            match &now.res {
                Some(res) => expect(&cx, props, state, v, res, &Res::Full(back)),
                None => cx.fail(props, &format!("state-{state}-pending"), format!("{v:?} to a full mailbox waits")),
            }
        } else if let Some(n) = waits {
            match &now.res {
                Some(res) => {
                    expect(&cx, props, state, v, res, &Res::TimeoutSpace(back));
                    cx.check(now.ret_ms - begin == n, &["C13"], "space-timeout-at-other-time", || format!("{v:?} timed out after {} ms", now.ret_ms - begin));
                }
                None => cx.fail(props, &format!("state-{state}-pending"), format!("{v:?} to a full mailbox never times out")),
            }
        } else {
            cx.check(now.res.is_none() && now.acc.is_none(), props, &format!("state-{state}-not-waiting"), || format!("{v:?} to a full mailbox gave {:?}", now.res));
        }
    } else if !v.is_ask() {
        match &now.res {
            Some(res) => expect(&cx, props, state, v, res, &Res::Sent),
            None => cx.fail(props, &format!("state-{state}-pending"), format!("{v:?} with space in the mailbox waits")),
        }
    } else if let (Some(n), false) = (v.reply_timeout(), running) {
        match &now.res {
            Some(res) => {
                expect(&cx, props, state, v, res, &Res::TimeoutReply);
                cx.check(now.ret_ms - begin == n, &["C13"], "reply-timeout-at-other-time", || format!("{v:?} timed out after {} ms", now.ret_ms - begin));
            }
            None => cx.fail(props, &format!("state-{state}-pending"), format!("{v:?} never times out")),
        }
    } else if running {
        match &now.res {
            Some(res) => expect(&cx, props, state, v, res, &replied),
            None => cx.fail(&["C03"], &format!("state-{state}-pending"), format!("{v:?} to an idle actor isn't answered")),
        }
    } else {
        cx.check(now.res.is_none(), props, &format!("state-{state}-early"), || format!("{v:?} gave {:?} before its handler ran", now.res));
    }
    // Let it go on
    gate.add_permits(10);
    {
        let _p = cx.pend(format!("{v:?} after the actor went on from {state}"));
        let _ = sender.await;
    }
    let now = ms.lock().unwrap().get(&uid).cloned().unwrap();
    if let Some(res) = &now.res {
        if state == "stopping" && v.is_ask() && v.reply_timeout().is_none() {
            expect(&cx, &["C03", "C06", "C02"], "stopped", v, res, &Res::Stopped);
        }
        if matches!(state, "starting" | "busy" | "full") && v.is_ask() && v.reply_timeout().is_none() && !res.refused() {
            expect(&cx, &["C03", "C02"], "resumed", v, res, &replied);
        }
    }
    drop(a);
    let _p = cx.pend("end of actor");
    let _ = end.await;
    check(&cx, &ms, &Opts { caps: HashMap::from([(1, cap)]), all_ended: true, det: true });
}

/// Exactly as many messages as its capacity fit into a mailbox nothing is taken from.
async fn capacity(cx: Cx, mut r: Rng) {
    let ms = msgs();
    let cap = *r.pick(&[1u64, 2, 3, 5, 8, 17, 64]);
    let unbounded = r.chance(15);
    // A capacity of 64 is the default
    let default = cap == 64 && !unbounded && r.chance(70);
    let gate = Arc::new(Semaphore::new(0));
    let a: ActorRef<P> = if default {
        kameo::spawn(P::new(&cx, 1, Plan::resilient()))
    } else {
        kameo::actor::spawn_with_mailbox(P::new(&cx, 1, Plan::resilient()), mbox(if unbounded { 0 } else { cap }))
    };
    let c = if unbounded { 0 } else { cap };
    cx.settle().await;
    let op = Op::with(&cx, 1, vec![Step::Gate(gate.clone())], Out::Ok);
    rsend(&cx, &ms, 1, V::Tell, &a, op).await;
    cx.settle().await;
    let mut pend: Vec<(u64, PendFut)> = vec![];
    let total = if unbounded { cap * 20 } else { cap };
    for i in 0..total {
        let op = Op::new(&cx, 2);
        let v = tweak(*r.pick(&[V::Tell, V::TellTry, V::TellMt(3), V::RecTry, V::RecMt(3), V::TryEnq, V::Enq, V::EnqMt(3), V::EnqRt(500)]), &mut r);
        let uid = op.uid;
        let t0 = cx.ms();
        if let Some(p) = rsend(&cx, &ms, 1, v, &a, op).await {
            pend.push(p);
        }
        let m = ms.lock().unwrap()[&uid].clone();
        let ok = m.acc.is_some();
        cx.check(ok && cx.ms() == t0, &["C13", "C02"], "capacity-short", || format!("message {} of a mailbox for {c} by {v:?} gave {:?} after {} ms", i + 1, m.res, cx.ms() - t0));
        if !ok {
            break;
        }
    }
    if !unbounded {
        // Full for every way of sending which doesn't wait, and for the ones with a limit
        for v in [V::TellTry, V::RecTry, V::AskTry, V::AskTryRt(3), V::TryEnq, V::TellMt(4), V::RecMt(5), V::AskMt(6), V::AskBoth(7, 3), V::EnqMt(8)] {
            let v = tweak(v, &mut r);
            let op = Op::new(&cx, 3);
            let uid = op.uid;
            let t0 = cx.ms();
            if let Some(p) = rsend(&cx, &ms, 1, v, &a, op).await {
                pend.push(p);
            }
            let m = ms.lock().unwrap()[&uid].clone();
            let back = v.returns_msg().then_some(uid);
            let want = if v.is_try() { Res::Full(back) } else { Res::TimeoutSpace(back) };
            cx.check(m.res.as_ref() == Some(&want), &["C13", "C02"], "over-capacity", || format!("{v:?} into a full mailbox for {c} gave {:?}", m.res));
            cx.check(cx.ms() - t0 == v.mailbox_timeout().unwrap_or(0), &["C13"], "space-timeout-at-other-time", || format!("{v:?} took {} ms", cx.ms() - t0));
        }
    }
    gate.add_permits(1);
    for (uid, p) in pend {
        let _p = cx.pend(format!("queued reply {uid}"));
        let res = p.await;
        done(&cx, &ms, 1, uid, res);
    }
    let got = a.ask(Get).await;
    let n = cx.events().iter().filter(|e| e.kind == "h").count() as u64;
    cx.check(matches!(got, Ok((k, _)) if k == n), &["C10", "C03"], "state-count", || format!("{n} handled, state is {got:?}"));
    a.kill();
    a.wait_for_shutdown().await;
    let mut caps = HashMap::new();
    caps.insert(1, c);
    // Killed from outside at the end, with everything handled
    check(&cx, &ms, &Opts { caps, all_ended: true, det: true });
}

/// Waiting senders are served in order, as space is freed and not before.
async fn waiters(cx: Cx, mut r: Rng) {
    let ms = msgs();
    let cap = r.range(1, 4);
    let gate = Arc::new(Semaphore::new(0));
    let a: ActorRef<P> = kameo::actor::spawn_with_mailbox(P::new(&cx, 1, Plan::resilient()), mbox(cap));
    cx.settle().await;
    for i in 0..=cap {
        let op = Op::with(&cx, 1, vec![Step::Gate(gate.clone())], Out::Ok);
        rsend(&cx, &ms, 1, V::Tell, &a, op).await;
        if i == 0 {
            cx.settle().await;
        }
    }
    let n = r.range(2, 8);
    let mut order = vec![];
    let mut tasks = vec![];
    for i in 0..n {
        let v = match r.below(8) {
            0 => V::Tell,
            1 => V::TellAwait,
            2 => V::Rec,
            3 => V::Ask,
            4 => V::Enq,
            5 => V::TellMt(100_000),
            6 => V::AskMt(100_000),
            _ => V::RecMt(100_000),
        };
        let op = Op::with(&cx, 10 + i, vec![Step::Gate(gate.clone())], Out::Ok);
        order.push(op.uid);
        let (cx2, ms2, a2) = (cx.clone(), ms.clone(), a.clone());
        tasks.push(tokio::spawn(async move {
            if let Some((uid, p)) = rsend(&cx2, &ms2, 1, v, &a2, op).await {
                let res = p.await;
                done(&cx2, &ms2, 1, uid, res);
            }
        }));
        cx.sleep(1).await;
    }
    let accepted = |tells: bool| -> usize {
        ms.lock().unwrap().values().filter(|m| m.from >= 10 && (m.acc.is_some() || !tells)).count()
    };
    cx.check(accepted(true) == 0, &["C13"], "accepted-without-space", || "a waiting sender was let into a full mailbox".into());
    for k in 1..=(n + cap + 1) {
        gate.add_permits(1);
        cx.sleep(1).await;
        let waiting = ms.lock().unwrap().values().filter(|m| m.from >= 10 && m.acc.is_none() && !m.v.is_ask()).count() as u64;
        let tells = ms.lock().unwrap().values().filter(|m| m.from >= 10 && !m.v.is_ask()).count() as u64;
        // After k messages were taken, the first k senders got in
        let in_order: Vec<bool> = order.iter().map(|u| { let m = &ms.lock().unwrap()[u]; m.acc.is_some() || (m.v.is_ask() && m.acc.is_none()) }).collect();
        let must = order.iter().take(k as usize).filter(|u| !ms.lock().unwrap()[u].v.is_ask()).count() as u64;
        cx.check(tells - waiting == must.min(tells), &["C13"], "senders-let-in", || format!("after {k} messages were taken, {} of {tells} telling senders got in rather than {must}: {in_order:?}", tells - waiting));
    }
    for t in tasks {
        let _p = cx.pend("waiting sender");
        let _ = t.await;
    }
    let handled: Vec<u64> = cx.events().iter().filter(|e| e.kind == "h" && e.b >= 10).map(|e| e.a).collect();
    cx.check(handled == order, &["C13", "C01"], "waiters-out-of-order", || format!("sent {order:?}, handled {handled:?}"));
    drop(a);
    cx.settle().await;
    check(&cx, &ms, &Opts { caps: HashMap::from([(1, cap)]), all_ended: true, det: true });
}

/// The reply timeout runs from when the message was accepted, exactly.
async fn reply_timeout(cx: Cx, mut r: Rng) {
    let ms = msgs();
    let cap = *r.pick(&[0, 1, 2, 8]);
    let a: ActorRef<P> = kameo::actor::spawn_with_mailbox(P::new(&cx, 1, Plan::resilient()), mbox(cap));
    cx.settle().await;
    let mut tasks = vec![];
    for i in 0..r.range(1, 6) {
        let work = r.range(1, 40);
        let t = r.range(1, 60);
        let v = match r.below(4) {
            0 => V::AskRt(t),
            1 => V::AskBoth(r.range(1, 60), t),
            2 => V::EnqRt(t),
            _ => V::AskTryRt(t),
        };
        let op = Op::with(&cx, 1 + i, vec![Step::Sleep(work)], Out::Ok);
        let (cx2, ms2, a2) = (cx.clone(), ms.clone(), a.clone());
        let late = r.below(10);
        tasks.push(tokio::spawn(async move {
            cx2.sleep(late).await;
            let uid = op.uid;
            match rsend(&cx2, &ms2, 1, v, &a2, op).await {
                Some((uid, p)) => {
                    let polled = cx2.ms();
                    cx2.ev(1, "polled", uid, polled);
                    let res = p.await;
                    done(&cx2, &ms2, 1, uid, res);
                }
                None => {
                    let _ = uid;
                }
            }
        }));
    }
    for t in tasks {
        let _p = cx.pend("asker");
        let _ = t.await;
    }
    drop(a);
    cx.settle().await;
    let evs = cx.events();
    let all = ms.lock().unwrap().clone();
    // A message is accepted when it's sent, or once one less than the capacity of those before it are still waiting
    let handled: Vec<(u64, u64)> = evs.iter().filter(|e| e.kind == "h").map(|e| (e.a, e.ms)).collect();
    let accepted = |m: &Msg| -> Option<u64> {
        let k = handled.iter().position(|(uid, _)| *uid == m.uid)?;
        match cap {
            0 => Some(m.call_ms),
            c if (k as u64) < c => Some(m.call_ms),
            c => Some(m.call_ms.max(handled[k - c as usize].1)),
        }
    };
    for m in all.values() {
        let Some(d) = m.v.reply_timeout() else { continue };
        if !m.v.is_try() && !matches!(m.v, V::EnqRt(_)) {
            if let Some(acc) = accepted(m) {
                match &m.res {
                    Some(Res::TimeoutReply) => {
                        cx.check(m.ret_ms - acc == d, &["C13", "C02"], "reply-timer-from-elsewhere", || format!("{:?} called at {}, accepted at {acc}, timed out at {}", m.v, m.call_ms, m.ret_ms));
                        cx.stat("reply_timers_judged", 1);
                    }
                    Some(Res::Reply(_)) => {
                        cx.check(m.ret_ms - acc <= d, &["C13", "C02"], "replied-after-timeout", || format!("{:?} called at {}, accepted at {acc}, replied at {}", m.v, m.call_ms, m.ret_ms));
                    }
                    _ => {}
                }
            }
        }
        let h_end = evs.iter().find(|e| e.kind == "h_end" && e.a == m.uid).map(|e| e.ms);
        match &m.res {
            Some(Res::TimeoutReply) => {
                // With a mailbox without waiting senders the message was accepted when it was sent
                let waited = m.ret_ms - m.call_ms;
                if cap == 0 || m.v.is_try() || matches!(m.v, V::EnqRt(_)) {
                    let acc = if matches!(m.v, V::EnqRt(_)) { m.acc_ms } else { m.call_ms };
                    cx.check(m.ret_ms - acc == d, &["C13"], "reply-timeout-at-other-time", || format!("{:?} timed out after {waited} ms", m.v));
                } else {
                    let max = d + m.v.mailbox_timeout().unwrap_or(100_000);
                    cx.check(waited >= d && waited <= max, &["C13"], "reply-timeout-at-other-time", || format!("{:?} timed out after {waited} ms", m.v));
                }
                // It's still handled
                cx.check(h_end.map_or(false, |t| t >= m.ret_ms), &["C13", "C03", "C02"], "timed-out-not-handled", || format!("message {} {:?}: handler ended {h_end:?}, timed out {}", m.uid, m.v, m.ret_ms));
            }
            Some(Res::Reply(_)) => {
                cx.check(h_end == Some(m.ret_ms), &["C03", "C13"], "reply-late", || format!("message {} {:?}: handler ended {h_end:?}, reply at {}", m.uid, m.v, m.ret_ms));
                let acc = if m.acc_ms < m.ret_ms { m.acc_ms } else { m.call_ms };
                if cap == 0 || m.v.is_try() {
                    cx.check(m.ret_ms - acc <= d, &["C13", "C02"], "replied-after-timeout", || format!("message {} {:?} took {} ms", m.uid, m.v, m.ret_ms - acc));
                }
            }
            _ => {}
        }
    }
    check(&cx, &ms, &Opts { caps: HashMap::from([(1, cap)]), all_ended: true, det: true });
}

/// Senders race with the end of the actor.
async fn race_end(cx: Cx, mut r: Rng) {
    let ms = msgs();
    let cap = any_cap(&mut r);
    let prepared = PreparedActor::new(mbox(cap));
    let a = prepared.actor_ref().clone();
    let end = spawn_prepared(&cx, prepared, P::new(&cx, 1, Plan::resilient()));
    let mut tasks = vec![];
    for c in 1..=r.range(2, 5) {
        let (cx, ms, a) = (cx.clone(), ms.clone(), a.clone());
        let mut r = r.fork();
        tasks.push(tokio::spawn(async move {
            for _ in 0..r.range(5, 40) {
                let op = Op::with(&cx, c, if r.chance(20) { any_steps(&mut r) } else { vec![] }, Out::Ok);
                let v = V::any(&mut r);
                if let Some((uid, p)) = rsend(&cx, &ms, 1, v, &a, op).await {
                    let _p = cx.pend(format!("queued reply {uid}"));
                    let res = p.await;
                    done(&cx, &ms, 1, uid, res);
                }
            }
        }));
    }
    let kill = r.chance(50);
    for _ in 0..r.below(6) {
        cx.pause(&mut r).await;
    }
    if kill {
        cx.ev(1, "kill", 0, 0);
        a.kill();
    } else {
        cx.ev(1, "stop_call", 1, 0);
        let res = a.stop_gracefully().await;
        cx.ev(1, "stop_ret", 1, res.is_ok() as u64);
    }
    drop(a);
    for t in tasks {
        let _p = cx.pend("sender");
        let _ = t.await;
    }
    let _p = cx.pend("end of actor");
    let _ = end.await;
    check(&cx, &ms, &Opts { caps: HashMap::from([(1, cap)]), all_ended: true, det: false });
}
