//! Start-up, shutdown, waiting, killing, references, panics.
use std::{
    collections::HashMap,
    sync::{Arc, Mutex},
};

use futures::FutureExt;
use kameo::error::set_actor_error_hook;
use kameo::prelude::*;
use tokio::sync::Semaphore;

use crate::{core::*, det, history::*, mt, probe::*, Family};

pub fn families() -> Vec<Family> {
    vec![
        det("startup", &["C04", "C08", "C06", "C01"], 25, |cx, r| startup(cx, r).boxed()),
        mt("startup-mt", &["C04"], 6, 4, |cx, r| startup(cx, r).boxed()),
        det("waits", &["C05", "C08"], 25, |cx, r| waits(cx, r).boxed()),
        mt("waits-mt", &["C05"], 6, 4, |cx, r| waits(cx, r).boxed()),
        det("graceful", &["C06", "C08", "C01"], 25, |cx, r| graceful(cx, r).boxed()),
        mt("graceful-mt", &["C06"], 6, 4, |cx, r| graceful(cx, r).boxed()),
        det("kill", &["C07", "C08", "C03"], 25, |cx, r| kill(cx, r).boxed()),
        mt("kill-mt", &["C07"], 6, 4, |cx, r| kill(cx, r).boxed()),
        det("hooks", &["C08", "C10", "C26"], 25, |cx, r| hooks(cx, r).boxed()),
        det("refs", &["C09", "C16"], 25, |cx, r| refs(cx, r).boxed()),
        mt("refs-mt", &["C09"], 6, 4, |cx, r| refs_mt(cx, r).boxed()),
        det("panics", &["C10", "C08"], 25, |cx, r| panics(cx, r).boxed()),
    ]
}

async fn stop(cx: &Cx, n: u32, a: &ActorRef<P>) -> bool {
    let id = cx.uid();
    let _p = cx.pend(format!("stop_gracefully of actor {n}"));
    cx.ev(n, "stop_call", id, 0);
    let res = a.stop_gracefully().await;
    cx.ev(n, "stop_ret", id, res.is_ok() as u64);
    if let Err(e) = &res {
        cx.check(matches!(e, SendError::ActorNotRunning(())), &["C06", "C02"], "stop-error-kind", || format!("{e:?}"));
        let ended = cx.events().iter().any(|e| e.who == n && e.kind == "stop");
        cx.check(ended, &["C06", "C02"], "stop-refused-while-running", || format!("actor {n}: {e:?}"));
    }
    res.is_ok()
}

/// Messages to oneself in the start hook go first, others' are kept; with stops, panics and tiny mailboxes.
async fn startup(cx: Cx, mut r: Rng) {
    let ms = msgs();
    let cap = any_cap(&mut r);
    let prepared = PreparedActor::new(mbox(cap));
    let a = prepared.actor_ref().clone();
    let mut plan = Plan::resilient();
    let bad = *r.pick(&[0, 0, 25]);
    let any_out = |r: &mut Rng| {
        if r.chance(bad) {
            if r.chance(50) {
                any_panic(r)
            } else {
                Out::Fail(r.below(50))
            }
        } else {
            Out::Ok
        }
    };
    let selfs = r.below(6);
    for _ in 0..selfs {
        let op = Op::with(&cx, 1001, if r.chance(40) { any_steps(&mut r) } else { vec![] }, any_out(&mut r));
        let (cx2, ms2) = (cx.clone(), ms.clone());
        let v = *r.pick(&[V::TellTry, V::TellTry, V::RecTry, V::TryEnq]);
        plan.start.steps.push(do_step(move |me| {
            let (cx, ms, op) = (cx2.clone(), ms2.clone(), op.clone());
            async move {
                if let Some((_, p)) = rsend(&cx, &ms, 1, v, &me, op).await {
                    drop(p);
                }
            }
            .boxed()
        }));
    }
    // A handler's message to itself comes after what was sent before
    for _ in 0..r.range(0, 3) {
        plan.start.steps.push(if r.chance(50) { Step::Sleep(r.range(1, 10)) } else { Step::Yield(r.range(1, 4)) });
    }
    let stop_inside = r.chance(12);
    if stop_inside {
        let cx2 = cx.clone();
        plan.start.steps.push(do_step(move |me| {
            let cx = cx2.clone();
            async move {
                // Not waiting, as the mailbox may be full
                let me = me.clone();
                let cx = cx.clone();
                tokio::spawn(async move {
                    stop(&cx, 1, &me).await;
                });
            }
            .boxed()
        }));
    }
    r.shuffle(&mut plan.start.steps);
    match r.below(10) {
        0 => plan.start.out = Out::Fail(r.below(9)),
        1 => plan.start.out = any_panic(&mut r),
        _ => {}
    }
    let failing = plan.start.out != Out::Ok;
    if failing {
        plan.on_panic = if r.chance(50) { Arc::new(|_| Dec::Default) } else { Arc::new(|_| Dec::Continue) };
    }
    let mut tasks = vec![];
    for _ in 0..r.below(3) {
        let op = Op::with(&cx, 2000, vec![], any_out(&mut r));
        rsend(&cx, &ms, 1, V::TellTry, &a, op).await;
    }
    let stop_before = r.chance(8);
    if stop_before && cap != 1 {
        // It's the last message to be handled, even before the hook has run
        let (cx, a) = (cx.clone(), a.clone());
        tasks.push(tokio::spawn(async move {
            stop(&cx, 1, &a).await;
        }));
        if r.chance(50) {
            tokio::task::yield_now().await;
        }
    }
    for c in 1..=r.range(1, 4) {
        let (cx, ms, a) = (cx.clone(), ms.clone(), a.clone());
        let mut r = r.fork();
        let out: Vec<Out> = (0..r.range(1, 6)).map(|_| any_out(&mut r)).collect();
        tasks.push(tokio::spawn(async move {
            let mut pend: Vec<(u64, PendFut)> = vec![];
            for out in out {
                if r.chance(50) {
                    cx.pause(&mut r).await;
                }
                let op = Op::with(&cx, c, if r.chance(30) { any_steps(&mut r) } else { vec![] }, out);
                let v = V::any_plain(&mut r);
                if let Some(p) = rsend(&cx, &ms, 1, v, &a, op).await {
                    pend.push(p);
                }
            }
            for (uid, p) in pend {
                let _p = cx.pend(format!("queued reply {uid}"));
                let res = p.await;
                done(&cx, &ms, 1, uid, res);
            }
        }));
    }
    let early = r.chance(50);
    if !early {
        cx.sleep(r.below(5)).await;
    }
    let end = spawn_prepared(&cx, prepared, P::new(&cx, 1, plan));
    for t in tasks {
        let _p = cx.pend("sender");
        let _ = t.await;
    }
    {
        let _p = cx.pend("start-up");
        a.wait_for_startup().await;
    }
    drop(a);
    let _p = cx.pend("end of actor");
    let _ = end.await;
    check(&cx, &ms, &Opts { caps: HashMap::from([(1, cap)]), all_ended: true, det: cx.det() });
}

/// Waiters of every kind, which began at any time, are all released when it's over and not before.
async fn waits(cx: Cx, mut r: Rng) {
    let cap = any_cap(&mut r);
    let prepared = PreparedActor::new(mbox(cap));
    let a = prepared.actor_ref().clone();
    let mut plan = Plan::default();
    if r.chance(70) {
        plan.start.steps = vec![Step::Sleep(r.range(1, 20))];
    }
    if r.chance(60) {
        plan.stop.steps = vec![Step::Sleep(r.range(1, 20))];
    }
    let start_out = match r.below(8) {
        0 | 1 => Out::Fail(r.below(1000)),
        2 => any_panic(&mut r),
        _ => Out::Ok,
    };
    let stop_out = match r.below(6) {
        0 | 1 => Out::Fail(r.below(1000)),
        2 => any_panic(&mut r),
        _ => Out::Ok,
    };
    plan.start.out = start_out;
    plan.stop.out = stop_out;
    let mut tasks = vec![];
    for k in 0..r.range(3, 12) {
        let (cx, a) = (cx.clone(), a.clone());
        let mut r = r.fork();
        let late = r.below(60);
        let many = r.chance(40);
        tasks.push(tokio::spawn(async move {
            cx.sleep(late).await;
            let kind = r.below(8);
            let _p = cx.pend(format!("waiter of kind {kind}"));
            let began = cx.ev(1, "wait", k, kind);
            let mut result = None;
            // A waiter which gives up takes nothing from the others
            if many {
                for _ in 0..r.below(4) {
                    let _ = tokio::time::timeout(cx.dur(r.below(4)), async {
                        if kind < 4 {
                            a.wait_for_startup().await
                        } else {
                            a.wait_for_shutdown().await
                        }
                    })
                    .await;
                }
            }
            let is_start = match kind {
                0 => {
                    a.wait_for_startup().await;
                    true
                }
                1 => {
                    a.clone().recipient::<Op>().wait_for_startup().await;
                    true
                }
                2 | 3 => {
                    if matches!(start_out, Out::Ok | Out::Fail(_)) {
                        result = Some(a.wait_for_startup_result().await);
                    } else {
                        a.wait_for_startup().await;
                    }
                    true
                }
                4 => {
                    a.wait_for_shutdown().await;
                    false
                }
                5 => {
                    a.clone().recipient::<Op>().wait_for_shutdown().await;
                    false
                }
                _ => {
                    if matches!(stop_out, Out::Ok | Out::Fail(_)) {
                        result = Some(a.wait_for_shutdown_result().await);
                    } else {
                        a.wait_for_shutdown().await;
                    }
                    false
                }
            };
            let pos = cx.ev(1, "waited", k, is_start as u64);
            let evs = cx.events();
            let find = |kinds: &[&str]| evs.iter().position(|e| e.who == 1 && kinds.contains(&e.kind));
            let over = if is_start { find(&["start_end", "start_out"]) } else { find(&["stop_end", "stop_out"]) };
            let what = if is_start { "startup-wait" } else { "shutdown-wait" };
            match over {
                Some(p) if p < pos => {
                    if cx.det() {
                        // At the very moment, or at once when it was over before
                        let want = evs[p].ms.max(evs[began].ms);
                        cx.check(many || evs[pos].ms == want, &["C05"], &format!("{what}-late"), || format!("over at {} ms, waiter began at {} and was released at {}", evs[p].ms, evs[began].ms, evs[pos].ms));
                    }
                }
                _ => cx.fail(&["C05"], &format!("{what}-early"), format!("waiter of kind {kind} was released at {pos}")),
            }
            if let Some(res) = result {
                let out = if is_start { start_out } else { stop_out };
                let want = match out {
                    Out::Fail(n) => Err(E(n)),
                    _ => Ok(()),
                };
                cx.check(res == want, &["C05"], &format!("{what}-result"), || format!("waiter of kind {kind} got {res:?}, the hook gave {want:?}"));
            }
            if !is_start {
                cx.check(!a.is_alive(), &["C05", "C02"], "alive-after-shutdown", || "is_alive after the shutdown was waited for".into());
                let res = a.tell(Op::new(&cx, 1)).try_send();
                cx.check(matches!(res, Err(SendError::ActorNotRunning(_))), &["C05", "C02"], "send-after-shutdown", || format!("{res:?}"));
            }
            cx.stat("waits", 1);
        }));
    }
    cx.sleep(r.below(6)).await;
    let end = spawn_prepared(&cx, prepared, P::new(&cx, 1, plan));
    cx.sleep(r.below(50)).await;
    let by = r.below(3);
    match by {
        0 => {
            cx.ev(1, "kill", 0, 0);
            a.kill();
        }
        1 => {
            stop(&cx, 1, &a).await;
        }
        _ => {
            let op = Op::with(&cx, 1, vec![], Out::PanicStr);
            let _ = a.tell(op).await;
        }
    }
    for t in tasks {
        let _p = cx.pend("waiter");
        if t.await.is_err() {
            cx.fail(&["C05"], "waiter-panicked", "a waiting task panicked");
        }
    }
    drop(a);
    let _p = cx.pend("end of actor");
    let _ = end.await;
}

/// Any number of stop requests from anywhere, with messages before and after.
async fn graceful(cx: Cx, mut r: Rng) {
    let ms = msgs();
    let cap = any_cap(&mut r);
    let prepared = PreparedActor::new(mbox(cap));
    let a = prepared.actor_ref().clone();
    let mut plan = Plan::resilient();
    if r.chance(50) {
        plan.start.steps = any_steps(&mut r);
    }
    if r.chance(40) {
        plan.stop.steps = vec![Step::Sleep(r.range(1, 30))];
    }
    let bad = *r.pick(&[0, 0, 20]);
    let gate = Arc::new(Semaphore::new(0));
    let gated = r.chance(50);
    let end = spawn_prepared(&cx, prepared, P::new(&cx, 1, plan));
    if gated {
        let op = Op::with(&cx, 900, vec![Step::Gate(gate.clone())], Out::Ok);
        rsend(&cx, &ms, 1, V::TellTry, &a, op).await;
    }
    let mut tasks = vec![];
    for c in 1..=r.range(1, 4) {
        let (cx, ms, a) = (cx.clone(), ms.clone(), a.clone());
        let mut r = r.fork();
        tasks.push(tokio::spawn(async move {
            let mut pend: Vec<(u64, PendFut)> = vec![];
            for _ in 0..r.range(1, 10) {
                if r.chance(50) {
                    cx.pause(&mut r).await;
                }
                let out = if r.chance(bad) { if r.chance(50) { any_panic(&mut r) } else { Out::Fail(3) } } else { Out::Ok };
                let mut steps = if r.chance(30) { any_steps(&mut r) } else { vec![] };
                if r.chance(6) {
                    // A handler asks for the stop
                    let cx2 = cx.clone();
                    let direct = r.chance(30);
                    steps.push(do_step(move |me| {
                        let cx = cx2.clone();
                        async move {
                            let t = tokio::spawn(async move {
                                stop(&cx, 1, &me).await;
                            });
                            if direct {
                                tokio::task::yield_now().await;
                            }
                            drop(t);
                        }
                        .boxed()
                    }));
                }
                let op = Op::with(&cx, c, steps, out);
                let v = V::any_plain(&mut r);
                if let Some(p) = rsend(&cx, &ms, 1, v, &a, op).await {
                    pend.push(p);
                }
            }
            for (uid, p) in pend {
                let _p = cx.pend(format!("queued reply {uid}"));
                let res = p.await;
                done(&cx, &ms, 1, uid, res);
            }
        }));
    }
    for _ in 0..r.range(1, 4) {
        let (cx, a) = (cx.clone(), a.clone());
        let mut r = r.fork();
        let via = r.below(2);
        tasks.push(tokio::spawn(async move {
            cx.sleep(r.below(25)).await;
            if via == 0 {
                stop(&cx, 1, &a).await;
            } else {
                let rec = a.recipient::<Op>();
                let id = cx.uid();
                let _p = cx.pend("stop_gracefully of a recipient");
                cx.ev(1, "stop_call", id, 0);
                let ok = rec.stop_gracefully().await.is_ok();
                cx.ev(1, "stop_ret", id, ok as u64);
            }
        }));
    }
    if gated {
        cx.sleep(r.below(40)).await;
        gate.add_permits(1);
    }
    for t in tasks {
        let _p = cx.pend("client");
        let _ = t.await;
    }
    {
        let _p = cx.pend("shutdown");
        a.wait_for_shutdown().await;
    }
    // All over: later requests and messages are refused
    let again = stop(&cx, 1, &a).await;
    cx.check(!again, &["C06"], "stop-accepted-after-end", || "a stop request of an ended actor succeeded".into());
    let v = V::any(&mut r);
    let op = Op::new(&cx, 50);
    let uid = op.uid;
    rsend(&cx, &ms, 1, v, &a, op).await;
    let res = ms.lock().unwrap()[&uid].res.clone();
    cx.check(matches!(res, Some(Res::NotRunning(_))), &["C06", "C02"], "send-after-end", || format!("{v:?} gave {res:?}"));
    drop(a);
    let _p = cx.pend("end of actor");
    let _ = end.await;
    let reason = cx.events().iter().find(|e| e.kind == "ended").map(|e| e.text.clone());
    cx.check(reason.as_deref() == Some("normal"), &["C06", "C08"], "stop-reason", || format!("{reason:?}"));
    check(&cx, &ms, &Opts { caps: HashMap::from([(1, cap)]), all_ended: true, det: cx.det() });
}

/// Killed while doing anything, with others waiting on it in every way.
async fn kill(cx: Cx, mut r: Rng) {
    let ms = msgs();
    let cap = any_cap(&mut r);
    let prepared = PreparedActor::new(mbox(cap));
    let a = prepared.actor_ref().clone();
    let mut plan = Plan::default();
    let state = *r.pick(&["starting", "idle", "sleeping", "yielding", "gated", "panic-hook", "stopping", "not-started", "link-hook", "stop-queued", "full", "buffering"]);
    let gate = Arc::new(Semaphore::new(0));
    match state {
        "starting" => plan.start.steps = vec![Step::Sleep(r.range(10, 30))],
        "panic-hook" => {
            plan.panic_steps = vec![Step::Sleep(1000)];
            plan.on_panic = Arc::new(|_| Dec::Continue);
        }
        "link-hook" => {
            plan.link_steps = vec![Step::Sleep(1000)];
            plan.on_link = Arc::new(|_| Dec::Continue);
        }
        "stopping" => plan.stop.steps = vec![Step::Sleep(50)],
        "buffering" => {
            // Still busy with a message to itself, others waiting
            let (cx2, ms2) = (cx.clone(), ms.clone());
            plan.start.steps = vec![
                do_step(move |me| {
                    let (cx, ms) = (cx2.clone(), ms2.clone());
                    async move {
                        let op = Op::with(&cx, 1001, vec![Step::Sleep(1000)], Out::Ok);
                        rsend(&cx, &ms, 1, V::TellTry, &me, op).await;
                    }
                    .boxed()
                }),
                Step::Sleep(5),
            ];
        }
        _ => {}
    }
    let watch = kameo::spawn(P::new(&cx, 2, Plan::resilient()));
    let other = kameo::spawn(P::new(&cx, 3, Plan::resilient()));
    a.link(&watch).await;
    if state == "link-hook" {
        a.link(&other).await;
    }
    let mut end = None;
    let mut held = Some(prepared);
    if state != "not-started" {
        end = Some(spawn_prepared(&cx, held.take().unwrap(), P::new(&cx, 1, plan.clone())));
    }
    if !matches!(state, "starting" | "not-started" | "buffering") {
        a.wait_for_startup().await;
    } else {
        cx.sleep(2).await;
    }
    let busy = match state {
        "sleeping" | "stop-queued" => Some(vec![Step::Sleep(1000), Step::Mark(1)]),
        "yielding" => Some(vec![Step::Yield(if cx.det() { 1_000 } else { 20_000 })]),
        "gated" | "full" => Some(vec![Step::Gate(gate.clone()), Step::Mark(1)]),
        _ => None,
    };
    if let Some(steps) = busy {
        let op = Op::with(&cx, 500, steps, Out::Ok);
        rsend(&cx, &ms, 1, V::TellTry, &a, op).await;
    }
    if state == "panic-hook" {
        let op = Op::with(&cx, 500, vec![], any_panic(&mut r));
        rsend(&cx, &ms, 1, V::TellTry, &a, op).await;
    }
    if state == "link-hook" {
        other.kill();
        other.wait_for_shutdown().await;
    }
    if cx.det() && state != "yielding" {
        cx.sleep(3).await;
    } else {
        cx.pause(&mut r).await;
    }
    // Those waiting for it
    let mut tasks = vec![];
    for c in 1..=r.range(1, 6) {
        let (cx, ms, a) = (cx.clone(), ms.clone(), a.clone());
        let mut r = r.fork();
        tasks.push(tokio::spawn(async move {
            for _ in 0..r.range(1, 4) {
                let op = Op::with(&cx, c, any_steps(&mut r), Out::Ok);
                let v = *r.pick(&[V::Tell, V::Ask, V::Enq, V::Rec, V::TellTry, V::AskMt(50_000), V::AskRt(50_000)]);
                if let Some((uid, p)) = rsend(&cx, &ms, 1, v, &a, op).await {
                    let _p = cx.pend(format!("queued reply {uid}"));
                    let res = p.await;
                    done(&cx, &ms, 1, uid, res);
                }
            }
            if r.chance(50) {
                let _p = cx.pend("wait_for_shutdown");
                a.wait_for_shutdown().await;
            }
        }));
    }
    if matches!(state, "stop-queued" | "stopping") {
        let (cx, a) = (cx.clone(), a.clone());
        tasks.push(tokio::spawn(async move {
            stop(&cx, 1, &a).await;
        }));
    }
    if cx.det() && state != "yielding" {
        cx.sleep(5).await;
    } else {
        cx.pause(&mut r).await;
    }
    let killed = cx.ev(1, "kill", 0, 0);
    if r.chance(30) {
        a.clone().recipient::<Op>().kill();
    } else {
        a.kill();
    }
    if r.chance(30) {
        a.kill();
    }
    if let Some(p) = held.take() {
        cx.sleep(r.below(5)).await;
        end = Some(spawn_prepared(&cx, p, P::new(&cx, 1, plan)));
    }
    for t in tasks {
        let _p = cx.pend(format!("client of a killed actor ({state})"));
        let _ = t.await;
    }
    {
        let _p = cx.pend(format!("shutdown of a killed actor ({state})"));
        a.wait_for_shutdown().await;
    }
    a.kill();
    let _p = cx.pend("end of actor");
    let _ = end.unwrap().await;
    cx.settle().await;
    let evs = cx.events();
    let stop_at = evs.iter().find(|e| e.who == 1 && e.kind == "stop");
    let reason = stop_at.map(|e| e.text.clone());
    if state != "stopping" {
        cx.check(reason.as_deref() == Some("killed"), &["C07", "C08"], "kill-reason", || format!("killed while {state}, ended with {reason:?}"));
    }
    if cx.det() && !matches!(state, "stopping") {
        // At once, or once the start hook is done
        let begin = evs.iter().find(|e| e.who == 1 && e.kind == "start_end").map(|e| e.ms).unwrap_or(0).max(evs[killed].ms);
        cx.check(stop_at.map(|e| e.ms) == Some(begin), &["C07"], "kill-late", || format!("killed while {state} at {} ms, stop hook ran at {:?}", evs[killed].ms, stop_at));
    }
    // The linked actor is told
    let told: Vec<_> = evs.iter().filter(|e| e.who == 2 && e.kind == "link" && e.a == a.id().sequence_id()).collect();
    let want = reason.clone().unwrap_or_default();
    cx.check(told.len() == 1 && told[0].text == want, &["C07", "C11", "C08"], "kill-not-notified", || format!("the linked actor was told {told:?} of {want}"));
    if cx.det() || state != "yielding" {
        check(&cx, &ms, &Opts { caps: HashMap::from([(1, cap)]), all_ended: false, det: cx.det() });
    }
    watch.kill();
    other.kill();
}

static HOOKED: Mutex<Vec<(u64, String)>> = Mutex::new(Vec::new());
fn hook_a(e: &PanicError) {
    HOOKED.lock().unwrap().push((1, perr_text(e)));
}
fn hook_b(e: &PanicError) {
    HOOKED.lock().unwrap().push((2, perr_text(e)));
}

/// Hooks which fail and panic, in every way of ending, with the error hook counting.
async fn hooks(cx: Cx, mut r: Rng) {
    let ms = msgs();
    HOOKED.lock().unwrap().clear();
    let which = r.range(1, 2);
    set_actor_error_hook(if which == 1 { hook_a } else { hook_b });
    let mut plan = Plan::default();
    let code = r.range(1000, 9999);
    let fail = |r: &mut Rng, c: u64| match r.below(4) {
        0 => Out::Fail(c),
        1 => Out::PanicString(c),
        2 => Out::PanicAny(c),
        _ => Out::PanicStr,
    };
    if r.chance(35) {
        plan.start.out = fail(&mut r, code);
    }
    if r.chance(55) {
        plan.stop.out = fail(&mut r, code + 10_000);
    }
    if r.chance(50) {
        plan.start.steps = any_steps(&mut r);
        plan.stop.steps = any_steps(&mut r);
    }
    let dec = r.below(5);
    plan.on_panic = Arc::new(move |_| match dec {
        0 => Dec::Continue,
        1 => Dec::Err(31),
        2 => Dec::Panic,
        3 => Dec::Break(ActorStopReason::Normal),
        _ => Dec::Default,
    });
    if dec == 3 {
        // The panic hook may end it normally, before what it accepted is handled
        cx.ev(1, "exempt", 0, 0);
    }
    let how = r.below(6);
    let start_out = plan.start.out;
    let stop_out = plan.stop.out;
    let watch = kameo::spawn(P::new(&cx, 2, Plan::resilient()));
    let cap = any_cap(&mut r);
    let prepared = PreparedActor::new(mbox(cap));
    let a = prepared.actor_ref().clone();
    a.link(&watch).await;
    let end = match r.below(3) {
        0 => {
            let (cx, p) = (cx.clone(), P::new(&cx, 1, plan));
            // In a task of one's own
            tokio::spawn(async move {
                let (p, reason) = prepared.run(p).await;
                cx.evt(1, "ended", p.entered, p.sum, reason_text(&reason));
            })
        }
        _ => spawn_prepared(&cx, prepared, P::new(&cx, 1, plan)),
    };
    if r.chance(50) {
        cx.sleep(r.below(10)).await;
    }
    let op = Op::with(&cx, 1, any_steps(&mut r), Out::Ok);
    rsend(&cx, &ms, 1, V::TellTry, &a, op).await;
    match how {
        0 => {
            cx.ev(1, "kill", 0, 0);
            a.kill();
        }
        1 => {
            stop(&cx, 1, &a).await;
        }
        2 => {
            let op = Op::with(&cx, 1, vec![], any_panic(&mut r));
            rsend(&cx, &ms, 1, V::Tell, &a, op).await;
        }
        3 => {
            let op = Op::with(&cx, 1, vec![], Out::Fail(5));
            rsend(&cx, &ms, 1, V::Tell, &a, op).await;
        }
        4 => {
            let other = kameo::spawn(P::new(&cx, 3, Plan::default()));
            a.link(&other).await;
            other.kill();
            other.wait_for_shutdown().await;
        }
        _ => {}
    }
    drop(a);
    {
        let _p = cx.pend("end of actor");
        let _ = end.await;
    }
    cx.settle().await;
    let evs = cx.events();
    let text = |o: Out| out_text(o);
    let mut want: Vec<(u64, String)> = vec![];
    if start_out != Out::Ok {
        want.push((which, text(start_out)));
    }
    if stop_out != Out::Ok {
        want.push((which, text(stop_out)));
    }
    let got = HOOKED.lock().unwrap().clone();
    cx.check(got == want, &["C08", "C26"], "error-hook", || format!("the error hook got {got:?}, expected {want:?}"));
    let stop_reason = evs.iter().find(|e| e.who == 1 && e.kind == "stop").map(|e| e.text.clone());
    let ended = evs.iter().find(|e| e.who == 1 && e.kind == "ended").map(|e| e.text.clone());
    let told: Vec<String> = evs.iter().filter(|e| e.who == 2 && e.kind == "link").map(|e| e.text.clone()).collect();
    cx.check(stop_reason.is_some() && stop_reason == ended && told == vec![ended.clone().unwrap_or_default()], &["C08", "C11"], "reasons-differ", || {
        format!("stop hook {stop_reason:?}, task {ended:?}, linked actor {told:?}")
    });
    if start_out != Out::Ok {
        let want = match dec {
            1 => "panicked:E(31)".to_string(),
            2 => "panicked:vp 900".to_string(),
            3 => "normal".to_string(),
            _ => format!("panicked:{}", text(start_out)),
        };
        cx.check(ended.as_deref() == Some(want.as_str()), &["C08", "C10"], "failed-start-reason", || format!("start hook gave {start_out:?} and the panic hook decided {dec}: ended with {ended:?}, not {want}"));
    }
    check(&cx, &ms, &Opts { caps: HashMap::from([(1, cap)]), all_ended: false, det: true });
    watch.kill();
}

enum Ref {
    A(ActorRef<P>),
    R(Recipient<Op>),
    W(WeakActorRef<P>),
    Wr(WeakRecipient<Op>),
}

/// Unreferenced, it can still be reached while it handles what it accepted.
fn upgraded(cx: &Cx, strong: usize, up: bool) {
    let ended = cx.events().iter().any(|e| e.who == 1 && e.kind == "stop");
    cx.check(if up { strong > 0 || !ended } else { strong == 0 }, &["C09", "C16"], "upgrade", || {
        format!("upgrading with {strong} strong references gave {up} (ended: {ended})")
    });
}

/// References of every kind come and go; the actor lives while a strong one exists.
async fn refs(cx: Cx, mut r: Rng) {
    let ms = msgs();
    let cap = any_cap(&mut r);
    let a: ActorRef<P>;
    let prepared = PreparedActor::new(mbox(cap));
    let first = prepared.actor_ref().clone();
    let id = first.id();
    let mut plan = Plan::resilient();
    plan.start.steps = if r.chance(40) { vec![Step::Sleep(r.range(1, 10))] } else { vec![] };
    let _end = spawn_prepared(&cx, prepared, P::new(&cx, 1, plan));
    a = first;
    cx.settle().await;
    // What the actor itself holds
    let w0 = a.weak_count();
    let base = a.strong_count();
    cx.check(base == 1, &["C09"], "strong-count", || format!("one reference, strong count {base}"));
    let peer = kameo::spawn(P::new(&cx, 2, Plan::resilient()));
    let linked = r.chance(30);
    if linked {
        a.link(&peer).await;
    }
    let w0 = if linked { a.weak_count() } else { w0 };
    let mut all = vec![Ref::A(a)];
    let mut sent = 0u64;
    for _ in 0..r.range(5, 40) {
        let strong = all.iter().filter(|x| matches!(x, Ref::A(_) | Ref::R(_))).count();
        let i = r.us(all.len());
        let new = match (&all[i], r.below(10)) {
            (Ref::A(a), 0 | 1) => Some(Ref::A(a.clone())),
            (Ref::A(a), 2 | 3) => Some(Ref::R(a.clone().recipient())),
            (Ref::A(a), 4) => Some(Ref::W(a.downgrade())),
            (Ref::R(a), 0 | 1) => Some(Ref::R(a.clone())),
            (Ref::R(a), 2 | 3) => Some(Ref::Wr(a.downgrade())),
            (Ref::W(a), 0 | 1) => Some(Ref::W(a.clone())),
            (Ref::Wr(a), 0 | 1) => Some(Ref::Wr(a.clone())),
            (Ref::W(a), 2 | 3) => {
                let up = a.upgrade();
                upgraded(&cx, strong, up.is_some());
                up.map(Ref::A)
            }
            (Ref::Wr(a), 2 | 3) => {
                let up = a.upgrade();
                upgraded(&cx, strong, up.is_some());
                up.map(Ref::R)
            }
            (Ref::A(a), 5) => {
                let op = Op::with(&cx, 1, any_steps(&mut r), if r.chance(10) { any_panic(&mut r) } else { Out::Ok });
                sent += 1;
                rsend(&cx, &ms, 1, V::Tell, a, op).await;
                None
            }
            (Ref::R(a), 5) => {
                let op = Op::with(&cx, 1, vec![], Out::Ok);
                sent += 1;
                let _ = a.tell(op).await;
                None
            }
            (_, 6..=8) => {
                drop(all.swap_remove(i));
                if all.is_empty() {
                    break;
                }
                None
            }
            _ => None,
        };
        all.extend(new);
        let strong = all.iter().filter(|x| matches!(x, Ref::A(_) | Ref::R(_))).count();
        if r.chance(40) {
            cx.settle().await;
            let weak = all.len() - strong;
            let ended = cx.events().iter().any(|e| e.who == 1 && e.kind == "ended");
            cx.check(ended == (strong == 0), &["C09"], if ended { "ended-while-referenced" } else { "alive-unreferenced" }, || format!("{strong} strong and {weak} weak references, ended: {ended}"));
            let w0 = if ended { None } else { Some(w0) };
            for x in &all {
                let (s, w, i, alive) = match x {
                    Ref::A(a) => (a.strong_count(), a.weak_count(), a.id(), Some(a.is_alive())),
                    Ref::R(a) => (a.strong_count(), a.weak_count(), a.id(), Some(a.is_alive())),
                    Ref::W(a) => (a.strong_count(), a.weak_count(), a.id(), None),
                    Ref::Wr(a) => (a.strong_count(), a.weak_count(), a.id(), None),
                };
                cx.check(i == id, &["C22", "C16"], "id-differs", || format!("{i:?} and {id:?}"));
                cx.check(s == strong, &["C09", "C16"], "strong-count", || format!("{strong} strong references, count {s}"));
                if let Some(w0) = w0 {
                    cx.check(w == w0 + weak, &["C09", "C16"], "weak-count", || format!("{weak} weak references (and {w0} of the actor), count {w}"));
                } else if !linked {
                    cx.check(w == weak, &["C09", "C16"], "weak-count", || format!("{weak} weak references to an ended actor, count {w}"));
                }
                if let Some(alive) = alive {
                    cx.check(alive, &["C09"], "not-alive", || "is_alive is false though referenced".into());
                }
            }
            cx.stat("counts_checked", all.len() as u64);
        }
        if strong == 0 && r.chance(50) {
            break;
        }
    }
    // The rest are dropped while it works
    let weaks: Vec<Ref> = {
        let (w, s): (Vec<_>, Vec<_>) = all.into_iter().partition(|x| matches!(x, Ref::W(_) | Ref::Wr(_)));
        drop(s);
        w
    };
    cx.settle().await;
    let evs = cx.events();
    let ended = evs.iter().find(|e| e.who == 1 && e.kind == "ended");
    cx.check(ended.map(|e| e.text.as_str()) == Some("normal"), &["C09", "C08"], "alive-unreferenced", || format!("unreferenced with {} weak references: {ended:?}", weaks.len()));
    for w in &weaks {
        let up = match w {
            Ref::W(w) => w.upgrade().is_some(),
            Ref::Wr(w) => w.upgrade().is_some(),
            _ => false,
        };
        cx.check(!up, &["C09"], "upgraded-after-end", || "a weak reference to a dropped actor was upgraded".into());
    }
    let handled = evs.iter().filter(|e| e.who == 1 && e.kind == "h").count() as u64;
    cx.check(handled == sent, &["C09", "C01"], "accepted-not-handled", || format!("{sent} sent, {handled} handled"));
    if linked {
        let told: Vec<_> = evs.iter().filter(|e| e.who == 2 && e.kind == "link").map(|e| e.text.clone()).collect();
        cx.check(told == vec!["normal"], &["C11", "C09"], "linked-not-told", || format!("{told:?}"));
    }
    peer.kill();
    let mut m = HashMap::new();
    m.insert(1, cap);
    check(&cx, &ms, &Opts { caps: m, all_ended: false, det: true });
}

/// Threads clone, downgrade, upgrade and drop concurrently.
async fn refs_mt(cx: Cx, mut r: Rng) {
    let ms = msgs();
    let cap = any_cap(&mut r);
    let prepared = PreparedActor::new(mbox(cap));
    let a = prepared.actor_ref().clone();
    let end = spawn_prepared(&cx, prepared, P::new(&cx, 1, Plan::resilient()));
    let mut tasks = vec![];
    let weak = a.downgrade();
    for c in 1..=4u64 {
        let (cx, ms, weak) = (cx.clone(), ms.clone(), weak.clone());
        let mut mine = vec![a.clone()];
        let mut r = r.fork();
        tasks.push(tokio::spawn(async move {
            for _ in 0..r.range(5, 40) {
                match r.below(6) {
                    0 | 1 => {
                        if let Some(x) = mine.last() {
                            let x = x.clone();
                            mine.push(x);
                        }
                    }
                    2 | 3 => {
                        if let Some(x) = mine.pop() {
                            drop(x);
                        }
                    }
                    4 => {
                        let up = weak.upgrade();
                        if let Some(x) = up {
                            mine.push(x);
                        } else {
                            cx.check(mine.is_empty(), &["C09"], "upgrade", || "a weak reference was not upgraded though a strong one exists".into());
                        }
                    }
                    _ => {
                        if let Some(x) = mine.last() {
                            let op = Op::with(&cx, c, vec![], Out::Ok);
                            let uid = op.uid;
                            rsend(&cx, &ms, 1, V::Tell, x, op).await;
                            let res = ms.lock().unwrap()[&uid].res.clone();
                            cx.check(res == Some(Res::Sent), &["C09", "C02"], "ended-while-referenced", || format!("a tell through a reference gave {res:?}"));
                        }
                    }
                }
                if let Some(x) = mine.last() {
                    cx.check(x.is_alive(), &["C09"], "not-alive", || "is_alive is false though referenced".into());
                    let n = x.strong_count();
                    cx.check(n >= mine.len(), &["C09"], "strong-count", || format!("{} of one's own, count {n}", mine.len()));
                }
            }
        }));
    }
    drop(a);
    for t in tasks {
        let _ = t.await;
    }
    {
        let _p = cx.pend("end of unreferenced actor");
        let _ = end.await;
    }
    cx.check(weak.upgrade().is_none(), &["C09"], "upgraded-after-end", || "upgraded after the end".into());
    check(&cx, &ms, &Opts { caps: HashMap::from([(1, cap)]), all_ended: true, det: false });
    let unhandled = {
        let evs = cx.events();
        ms.lock().unwrap().values().filter(|m| m.acc.is_some() && !evs.iter().any(|e| e.kind == "h" && e.a == m.uid)).count()
    };
    cx.check(unhandled == 0, &["C09", "C01"], "accepted-not-handled", || format!("{unhandled} accepted messages were not handled"));
}

/// Panics and errors of every kind in handlers and hooks of one actor, with a bystander.
async fn panics(cx: Cx, mut r: Rng) {
    let ms = msgs();
    let by = kameo::spawn(P::new(&cx, 2, Plan::default()));
    let mut plan = Plan::default();
    let k = r.below(6);
    let last = r.below(5);
    plan.panic_steps = any_steps(&mut r);
    plan.on_panic = Arc::new(move |i| {
        if i < k {
            return Dec::Continue;
        }
        match last {
            0 => Dec::Default,
            1 => Dec::Err(44),
            2 => Dec::Panic,
            3 => Dec::Break(ActorStopReason::Killed),
            _ => Dec::Break(ActorStopReason::Normal),
        }
    });
    let link_dec = r.below(4);
    plan.on_link = Arc::new(move |_| match link_dec {
        0 => Dec::Continue,
        1 => Dec::Err(45),
        2 => Dec::Panic,
        _ => Dec::Default,
    });
    let prepared = PreparedActor::new(mbox(any_cap(&mut r)));
    let a = prepared.actor_ref().clone();
    let end = spawn_prepared(&cx, prepared, P::new(&cx, 1, plan));
    let mut causes: Vec<String> = vec![];
    let mut dead = false;
    for _ in 0..r.range(1, 10) {
        if !cx.events().iter().any(|e| e.who == 1 && e.kind == "ended") && r.chance(12) {
            let other = kameo::spawn(P::new(&cx, 3, Plan::default()));
            a.link(&other).await;
            other.kill();
            other.wait_for_shutdown().await;
            cx.settle().await;
            if !dead {
                match link_dec {
                    1 => causes.push("E(45)".into()),
                    2 => causes.push("vp 800".into()),
                    3 => dead = true,
                    _ => {}
                }
            }
        } else {
            let out = match r.below(4) {
                0 => Out::Ok,
                1 => Out::Fail(r.below(90)),
                _ => any_panic(&mut r),
            };
            let op = Op::with(&cx, 1, any_steps(&mut r), out);
            let v = V::any_plain(&mut r);
            let uid = op.uid;
            if let Some((uid, p)) = rsend(&cx, &ms, 1, v, &a, op).await {
                let res = p.await;
                done(&cx, &ms, 1, uid, res);
            }
            cx.settle().await;
            let m = ms.lock().unwrap()[&uid].clone();
            let res = m.res.clone();
            let want = match (dead, v.is_ask(), out) {
                (true, _, _) => Res::NotRunning(v.returns_msg().then_some(uid)),
                (_, false, _) => Res::Sent,
                (_, true, Out::Ok) => Res::Reply(answer(uid)),
                (_, true, Out::Fail(n)) => Res::HandlerErr(E(n)),
                (_, true, _) => Res::Stopped,
            };
            cx.check(res == Some(want.clone()), &["C10", "C02", "C03"], "panic-result", || format!("{v:?} of {out:?} gave {res:?}, not {want:?}"));
            if !dead {
                match (v.is_ask(), out) {
                    (_, Out::Ok) | (true, Out::Fail(_)) => {}
                    _ => causes.push(out_text(out)),
                }
            }
        }
        if causes.len() as u64 > k {
            dead = true;
        }
        let got: Vec<String> = cx.events().iter().filter(|e| e.who == 1 && e.kind == "panic").map(|e| e.text.clone()).collect();
        if !cx.check(got == causes, &["C10"], "panic-hook-calls", || format!("the panic hook was called with {got:?}, expected {causes:?}")) {
            break;
        }
        let ended = cx.events().iter().find(|e| e.who == 1 && e.kind == "ended").cloned();
        cx.check(ended.is_some() == dead, &["C10"], "panic-end", || format!("after {} panics of which {k} are recovered from: ended {ended:?}", causes.len()));
        if let (Some(e), true) = (ended, causes.len() as u64 > k) {
            let want = match last {
                0 => format!("panicked:{}", causes.last().unwrap()),
                1 => "panicked:E(44)".into(),
                2 => format!("panicked:vp {}", 900 + k),
                3 => "killed".into(),
                _ => "normal".into(),
            };
            cx.check(e.text == want, &["C10", "C08"], "panic-reason", || format!("ended with {}, not {want}", e.text));
        }
    }
    let op = Op::new(&cx, 9);
    let uid = op.uid;
    let res = ask_res(by.ask(op).await);
    cx.check(res == Res::Reply(answer(uid)), &["C10"], "bystander", || format!("another actor answered {res:?}"));
    if !dead {
        let n = cx.events().iter().filter(|e| e.who == 1 && e.kind == "h").count() as u64;
        let got = a.ask(Get).await;
        cx.check(matches!(got, Ok((k, _)) if k == n), &["C10"], "state-lost", || format!("{n} messages were handled, state says {got:?}"));
    }
    drop(a);
    let _p = cx.pend("end of actor");
    let _ = end.await;
    by.kill();
}
