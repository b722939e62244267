//! Attached streams.
use std::{
    collections::BTreeMap,
    ops::ControlFlow,
    pin::Pin,
    sync::Arc,
    task::{Context as TaskCx, Poll},
};

use futures::{FutureExt, Stream};
use kameo::{message::StreamMessage, prelude::*};
use tokio::sync::Semaphore;

use crate::{core::*, det, mt, probe::*, Family};

pub fn families() -> Vec<Family> {
    vec![
        det("streams", &["C15"], 25, |cx, r| streams(cx, r).boxed()),
        mt("streams-mt", &["C15"], 6, 4, |cx, r| streams(cx, r).boxed()),
    ]
}

/// A stream which notes what was taken from it.
struct St {
    cx: Cx,
    id: u64,
    /// Pauses before each item; more than a million means never.
    pauses: Vec<u64>,
    taken: u64,
    waiting: Option<BoxFut>,
    done: bool,
}

impl Stream for St {
    type Item = (u64, u64);
    fn poll_next(mut self: Pin<&mut Self>, c: &mut TaskCx<'_>) -> Poll<Option<(u64, u64)>> {
        if self.done {
            // Polled after its end
            self.cx.fail(&["C15"], "stream-polled-after-end", format!("stream {}", self.id));
            return Poll::Ready(None);
        }
        let k = self.taken as usize;
        let pause = self.pauses.get(k).copied();
        if let Some(ms) = pause.filter(|p| *p > 0) {
            if ms > 1_000_000 {
                return Poll::Pending;
            }
            if self.waiting.is_none() {
                let cx = self.cx.clone();
                self.waiting = Some(async move { cx.sleep(ms).await }.boxed());
            }
            if self.waiting.as_mut().unwrap().as_mut().poll(c).is_pending() {
                return Poll::Pending;
            }
            self.waiting = None;
        }
        if pause.is_none() {
            self.done = true;
            self.cx.ev(1, "exhausted", self.id, 0);
            return Poll::Ready(None);
        }
        self.taken += 1;
        self.cx.ev(1, "taken", self.id, k as u64);
        Poll::Ready(Some((self.id, k as u64)))
    }
}

struct S {
    cx: Cx,
    rng: Rng,
    slow: bool,
    panics: bool,
    gate: Option<Arc<Semaphore>>,
    seen: u64,
}

impl Actor for S {
    type Error = E;
    async fn on_start(&mut self, _: ActorRef<Self>) -> Result<(), E> {
        if self.slow {
            self.cx.sleep(5).await;
        }
        Ok(())
    }
    async fn on_panic(&mut self, _: WeakActorRef<Self>, _: PanicError) -> Result<ControlFlow<ActorStopReason>, E> {
        Ok(ControlFlow::Continue(()))
    }
    async fn on_stop(&mut self, _: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), E> {
        self.cx.evt(1, "stop", self.seen, 0, reason_text(&reason));
        Ok(())
    }
}

const START: u64 = 1 << 40;
const FINISH: u64 = 1 << 41;

impl Message<StreamMessage<(u64, u64), u64, Arc<u64>>> for S {
    type Reply = ();
    async fn handle(&mut self, m: StreamMessage<(u64, u64), u64, Arc<u64>>, _: &mut Context<Self, ()>) {
        let (id, code) = match m {
            StreamMessage::Started(v) => (v / 1000, START + v % 1000),
            StreamMessage::Next((id, k)) => (id, k),
            StreamMessage::Finished(v) => (*v / 1000, FINISH + *v % 1000),
        };
        self.seen += 1;
        self.cx.ev(1, "got", id, code);
        if let Some(g) = self.gate.clone() {
            g.acquire().await.unwrap().forget();
        } else if self.slow {
            let mut r = self.rng.fork();
            self.cx.pause(&mut r).await;
        }
        if self.panics && self.rng.chance(15) {
            panic!("vp stream");
        }
    }
}

impl Message<Op> for S {
    type Reply = u64;
    async fn handle(&mut self, m: Op, _: &mut Context<Self, u64>) -> u64 {
        self.seen += 1;
        self.cx.ev(1, "h", m.uid, 0);
        answer(m.uid)
    }
}

async fn streams(cx: Cx, mut r: Rng) {
    let cap = *r.pick(&[0u64, 1, 2, 3, 8]);
    let mail = if cap == 0 { kameo::mailbox::unbounded() } else { kameo::mailbox::bounded(cap as usize) };
    let prepared = PreparedActor::<S>::new(mail);
    let a = prepared.actor_ref().clone();
    let gate = r.chance(30).then(|| Arc::new(Semaphore::new(0)));
    let s = S { cx: cx.clone(), rng: r.fork(), slow: r.chance(50), panics: r.chance(30), gate: gate.clone(), seen: 0 };
    let started_first = r.chance(70);
    let mut prepared = Some((prepared, s));
    let mut end = None;
    if started_first {
        let (p, s) = prepared.take().unwrap();
        end = Some(p.spawn(s));
    }
    let idle_first = started_first && r.chance(60);
    if idle_first {
        a.wait_for_startup().await;
        cx.settle().await;
    }
    let n = r.range(1, 3);
    let mut handles = BTreeMap::new();
    let mut lens = BTreeMap::new();
    for id in 1..=n {
        let mut pauses: Vec<u64> = (0..r.below(12)).map(|_| if r.chance(60) { 0 } else { r.range(1, 10) }).collect();
        let never = r.chance(25);
        lens.insert(id, (pauses.len() as u64, never));
        if never {
            pauses.push(u64::MAX);
        }
        let st = St { cx: cx.clone(), id, pauses, taken: 0, waiting: None, done: false };
        let v = id * 1000 + r.below(1000);
        cx.ev(1, "attach", id, v);
        handles.insert(id, (a.attach_stream(st, v, Arc::new(v)), v));
        if r.chance(30) {
            cx.pause(&mut r).await;
        }
    }
    if let Some((p, s)) = prepared.take() {
        cx.pause(&mut r).await;
        end = Some(p.spawn(s));
    }
    // Others' messages
    let mut tasks = vec![];
    for _ in 0..r.below(3) {
        let (cx, a) = (cx.clone(), a.clone());
        let mut r = r.fork();
        tasks.push(tokio::spawn(async move {
            for _ in 0..r.range(1, 5) {
                cx.pause(&mut r).await;
                let op = Op::new(&cx, 1);
                let uid = op.uid;
                let _p = cx.pend("ask beside streams");
                match a.ask(op).await {
                    Ok(v) => {
                        cx.check(v == answer(uid), &["C15", "C03"], "other-reply", || format!("{v}"));
                    }
                    Err(e) => {
                        let ended = cx.events().iter().any(|e| matches!(e.kind, "stop" | "end_request"));
                        cx.check(ended, &["C15", "C02"], "failed-while-running", || format!("{e:?}"));
                    }
                }
            }
        }));
    }
    // Backpressure, while nothing is handled
    if let Some(g) = &gate {
        let steps = r.range(0, 6);
        for _ in 0..steps {
            if cx.det() {
                cx.settle().await;
                let evs = cx.events();
                let taken = evs.iter().filter(|e| matches!(e.kind, "taken" | "attach" | "exhausted")).count() as u64;
                let got = evs.iter().filter(|e| e.kind == "got").count() as u64;
                // Those in the mailbox, and each stream's next one
                if cap > 0 {
                    cx.check(taken <= got + cap * if idle_first { 1 } else { 2 } + n + 3, &["C15", "C13"], "no-backpressure", || format!("{taken} taken, {got} begun, capacity {cap}, {n} streams"));
                }
            }
            g.add_permits(r.range(1, 3) as usize);
        }
    }
    let how = r.below(4);
    let mut after = 0;
    if how > 0 {
        if r.chance(70) {
            cx.sleep(r.below(40)).await;
        }
        after = cx.ev(1, "end_request", how, 0);
        match how {
            1 => a.kill(),
            2 => {
                let (cx, a) = (cx.clone(), a.clone());
                tasks.push(tokio::spawn(async move {
                    let _p = cx.pend("stop");
                    let _ = a.stop_gracefully().await;
                }));
            }
            _ => {
                a.kill();
                let _ = a.stop_gracefully().await;
            }
        }
    }
    if let Some(g) = &gate {
        g.add_permits(100_000);
    }
    for t in tasks {
        let _ = t.await;
    }
    cx.settle().await;
    if how > 0 {
        let _p = cx.pend("shutdown");
        a.wait_for_shutdown().await;
    }
    let endless: Vec<u64> = lens.iter().filter(|(_, l)| l.1).map(|(k, _)| *k).collect();
    let mut last_kill = false;
    let mut outcomes = BTreeMap::new();
    let mut handles: Vec<_> = handles.into_iter().collect();
    handles.sort_by_key(|(id, _)| endless.contains(id));
    for (id, (h, v)) in handles {
        if how == 0 && endless.contains(&id) && !last_kill {
            last_kill = true;
            // Everything given so far is handled
            {
                let _p = cx.pend("ask beside streams");
                let _ = a.ask(Op::new(&cx, 1)).await;
            }
            if cx.det() {
                cx.check(!h.is_finished(), &["C15"], "attachment-ended-early", || format!("stream {id} goes on"));
                let evs = cx.events();
                for id in &endless {
                    let got = evs.iter().filter(|e| e.kind == "got" && e.a == *id).count() as u64;
                    cx.check(got == lens[id].0 + 1, &["C15"], "item-missing", || format!("{got} messages of stream {id}"));
                }
            }
            cx.ev(1, "end_request", 9, 0);
            a.kill();
        }
        let _p = cx.pend(format!("attachment of stream {id}"));
        match h.await {
            Ok(x) => {
                let pos = cx.ev(1, "detached", id, x.is_ok() as u64);
                outcomes.insert(id, (x, v, pos));
            }
            Err(e) => cx.fail(&["C15"], "attachment-failed", format!("{e}")),
        }
    }
    if how == 0 && !last_kill {
        let _p = cx.pend("ask beside streams");
        let _ = a.ask(Op::new(&cx, 1)).await;
    }
    let evs = cx.events();
    for (id, (out, v, _)) in outcomes {
        let got: Vec<u64> = evs.iter().filter(|e| e.kind == "got" && e.a == id).map(|e| e.b).collect();
        let (len, never) = lens[&id];
        let mut want = vec![START + v % 1000];
        want.extend(0..len);
        if !never {
            want.push(FINISH + v % 1000);
        }
        let prefix = want.len() >= got.len() && want[..got.len()] == got[..];
        cx.check(prefix, &["C15"], "stream-order", || format!("stream {id}: got {got:?} of {want:?}"));
        if how == 0 && !never {
            cx.check(got.len() == want.len(), &["C15"], "item-missing", || format!("stream {id}: got {got:?} of {want:?}"));
            cx.check(out.is_ok(), &["C15"], "attachment-result", || "an error though the actor did not end".into());
        }
        let taken = evs.iter().filter(|e| e.kind == "taken" && e.a == id).count() as u64;
        match &out {
            Ok(st) => {
                cx.check(st.id == id && st.taken == taken, &["C15"], "other-stream-back", || format!("{} {}", st.id, id));
                if !never && st.done {
                    cx.stat("finished", 1);
                } else {
                    cx.stat("given_back", 1);
                }
                cx.check(st.done || how > 0 || never, &["C15"], "attachment-ended-early", || format!("stream {id}"));
            }
            Err(SendError::ActorNotRunning(m)) => {
                cx.stat("refused", 1);
                let (i, code) = match m {
                    StreamMessage::Started(v) => (v / 1000, START + v % 1000),
                    StreamMessage::Next((id, k)) => (*id, *k),
                    StreamMessage::Finished(v) => (**v / 1000, FINISH + **v % 1000),
                };
                let at = want.iter().position(|w| *w == code);
                cx.check(i == id && at.map_or(false, |p| p >= got.len()), &["C15"], "other-message-back", || format!("stream {id}: {code} given back, {got:?} handled"));
                // It's the last one taken
                let expect = if code >= FINISH { len } else if code >= START { 0 } else { code + 1 };
                cx.check(taken == expect, &["C15"], "item-lost", || format!("stream {id}: {code} given back but {taken} taken"));
                cx.check(how > 0 || never, &["C15"], "attachment-result", || "not running though it did not end".into());
            }
            Err(e) => cx.fail(&["C15"], "attachment-result", format!("{e}")),
        }
        // Once the actor has ended, one more at the most
        if let (true, Some(stop)) = (cx.det(), evs.iter().position(|e| e.kind == "stop")) {
            let ms = evs[stop].ms;
            let late = evs[stop..].iter().filter(|e| e.kind == "taken" && e.a == id).count();
            cx.check(late <= 1, &["C15"], "taken-after-end", || format!("stream {id}: {late} items taken after the end"));
            let det = evs.iter().find(|e| e.kind == "detached" && e.a == id).map(|e| e.ms).unwrap_or(0);
            let _ = (ms, det);
        }
    }
    let _ = after;
    drop(a);
    let _p = cx.pend("end of actor");
    if let Ok((s, reason)) = end.unwrap().await {
        let got = cx.events().iter().filter(|e| matches!(e.kind, "got" | "h")).count() as u64;
        cx.check(s.seen == got, &["C15", "C10"], "state-lost", || format!("{} {got}", s.seen));
        if how == 0 && !last_kill {
            cx.check(reason_text(&reason) == "normal", &["C15", "C09"], "kept-alive", || reason_text(&reason));
        }
    }
}
