//! Overridden message hooks and receive loops, and the mailbox functions they are made of.
use std::{
    collections::{BTreeMap, VecDeque},
    future::poll_fn,
    ops::ControlFlow,
    sync::{Arc, Mutex},
};

use futures::FutureExt;
use kameo::{
    error::BoxSendError,
    mailbox::{MailboxReceiver, MailboxSender, Signal},
    message::{BoxMessage, BoxReply},
    prelude::*,
    reply::{BoxReplySender, ReplyError},
};
use tokio::sync::mpsc;

use crate::{core::*, det, mt, probe::*, raw, Family};

pub fn families() -> Vec<Family> {
    vec![
        det("hooked", &["C29"], 25, |cx, r| hooked(cx, r).boxed()),
        mt("hooked-mt", &["C29"], 6, 4, |cx, r| hooked(cx, r).boxed()),
        det("mailbox", &["C29", "C13"], 25, |cx, r| mailbox(cx, r).boxed()),
        raw("mailbox-threads", &["C29", "C27"], 6, mailbox_threads),
    ]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum D {
    Handle,
    Fail(u64),
    Panic,
    Drop,
    Reply(u64),
    ReplyErr(u64),
    Later(u64),
    HookErr(u64),
    HookPanic,
}

#[derive(Clone, Debug)]
struct Hm {
    uid: u64,
    from: u64,
    d: D,
    pay: String,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Next {
    Recv,
    TryRecv,
    Many(usize),
    Poll,
    PollMany(usize),
    Merge,
    EndAfter(u64),
    CloseAfter(u64),
}

struct H {
    cx: Cx,
    mode: Next,
    buf: VecDeque<Signal<H>>,
    taken: u64,
    extra: mpsc::UnboundedReceiver<Hm>,
    starting: Vec<Hm>,
    passes: u64,
}

impl Actor for H {
    type Error = E;
    async fn on_start(&mut self, me: ActorRef<Self>) -> Result<(), E> {
        for m in std::mem::take(&mut self.starting) {
            self.cx.ev(1, "self", m.uid, 0);
            if me.tell(m.clone()).try_send().is_err() {
                self.cx.ev(1, "self_full", m.uid, 0);
            }
        }
        self.cx.sleep(2).await;
        self.cx.ev(1, "started", 0, 0);
        Ok(())
    }
    async fn on_message(&mut self, msg: BoxMessage<Self>, actor_ref: ActorRef<Self>, tx: Option<BoxReplySender>) -> Result<(), Box<dyn ReplyError>> {
        self.passes += 1;
        let m: Result<Hm, Pass> = match msg.as_any().downcast::<Hm>() {
            Ok(m) => Ok(*m),
            Err(any) => Err(*any.downcast::<Pass>().expect("a message of another actor")),
        };
        let m = match m {
            Ok(m) => m,
            Err(u) => {
                self.cx.ev(1, "om", u.0, 99);
                return (Box::new(u) as BoxMessage<Self>).handle_dyn(self, actor_ref, tx).await;
            }
        };
        self.cx.ev(1, "om", m.uid, m.from);
        if m.pay != payload(m.uid) {
            self.cx.fail(&["C29", "C01"], "message-changed", format!("{m:?}"));
        }
        match m.d {
            D::Handle | D::Fail(_) | D::Panic => (Box::new(m) as BoxMessage<Self>).handle_dyn(self, actor_ref, tx).await,
            D::Drop => Ok(()),
            D::Reply(v) => {
                if let Some(tx) = tx {
                    let _ = tx.send(Ok(Box::new(v) as BoxReply));
                }
                Ok(())
            }
            D::ReplyErr(v) => {
                if let Some(tx) = tx {
                    let _ = tx.send(Err(BoxSendError::HandlerError(Box::new(E(v)))));
                }
                Ok(())
            }
            D::Later(ms) => {
                let cx = self.cx.clone();
                tokio::spawn(async move {
                    cx.sleep(ms).await;
                    if let Some(tx) = tx {
                        let _ = tx.send(Ok(Box::new(answer(m.uid)) as BoxReply));
                    }
                });
                Ok(())
            }
            D::HookErr(n) => Err(Box::new(E(n))),
            D::HookPanic => panic!("vp hook"),
        }
    }
    async fn on_panic(&mut self, _: WeakActorRef<Self>, err: PanicError) -> Result<ControlFlow<ActorStopReason>, E> {
        self.cx.evt(1, "panic", 0, 0, perr_text(&err));
        Ok(ControlFlow::Continue(()))
    }
    async fn on_stop(&mut self, _: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), E> {
        self.cx.evt(1, "stop", 0, 0, reason_text(&reason));
        Ok(())
    }
    async fn next(&mut self, me: WeakActorRef<Self>, rx: &mut MailboxReceiver<Self>) -> Option<Signal<Self>> {
        let got = match self.mode {
            Next::Recv => rx.recv().await,
            Next::TryRecv => match rx.try_recv() {
                Ok(s) => Some(s),
                Err(_) => rx.recv().await,
            },
            Next::Many(k) => {
                if self.buf.is_empty() {
                    let mut v = vec![];
                    let n = rx.recv_many(&mut v, k).await;
                    if n != v.len() || n > k {
                        self.cx.fail(&["C29"], "recv-many", format!("recv_many of {k} returned {n}, gave {}", v.len()));
                    }
                    self.buf.extend(v);
                }
                self.buf.pop_front()
            }
            Next::Poll => poll_fn(|c| rx.poll_recv(c)).await,
            Next::PollMany(k) => {
                if self.buf.is_empty() {
                    let mut v = vec![];
                    let n = poll_fn(|c| rx.poll_recv_many(c, &mut v, k)).await;
                    if n != v.len() || n > k {
                        self.cx.fail(&["C29"], "recv-many", format!("poll_recv_many of {k} returned {n}, gave {}", v.len()));
                    }
                    self.buf.extend(v);
                }
                self.buf.pop_front()
            }
            Next::Merge => {
                tokio::select! {
                    s = rx.recv() => s,
                    Some(m) = self.extra.recv() => {
                        match me.upgrade() {
                            Some(actor_ref) => Some(Signal::Message { message: Box::new(m), actor_ref, reply: None, sent_within_actor: false }),
                            None => rx.recv().await,
                        }
                    }
                }
            }
            Next::EndAfter(k) => {
                if self.taken >= k {
                    self.cx.ev(1, "ends_itself", self.taken, 0);
                    None
                } else {
                    rx.recv().await
                }
            }
            Next::CloseAfter(k) => {
                if self.taken == k {
                    rx.close();
                    self.cx.ev(1, "closed", self.taken, 0);
                    if !rx.is_closed() {
                        self.cx.fail(&["C29"], "close", "a closed mailbox isn't closed");
                    }
                }
                rx.recv().await
            }
        };
        self.taken += 1;
        got
    }
}

impl Message<Hm> for H {
    type Reply = Result<u64, E>;
    async fn handle(&mut self, m: Hm, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.cx.ev(1, "h", m.uid, m.from);
        if m.d == D::Panic {
            panic!("vp handle");
        }
        match m.d {
            D::Fail(n) => Err(E(n)),
            _ => Ok(answer(m.uid)),
        }
    }
}

struct Pass(u64);
impl Message<Pass> for H {
    type Reply = u64;
    async fn handle(&mut self, m: Pass, _: &mut Context<Self, Self::Reply>) -> u64 {
        self.cx.ev(1, "h", m.0, 99);
        m.0 + 1
    }
}

fn any_d(r: &mut Rng) -> D {
    match r.below(11) {
        0..=2 => D::Handle,
        3 => D::Fail(r.below(90)),
        4 => D::Panic,
        5 => D::Drop,
        6 => D::Reply(r.next() >> 5),
        7 => D::ReplyErr(r.below(90)),
        8 => D::Later(r.range(1, 30)),
        9 => D::HookErr(r.range(100, 190)),
        _ => D::HookPanic,
    }
}

#[derive(Clone, Debug)]
struct Rec {
    m: Hm,
    ask: bool,
    res: Option<Res>,
    order: u64,
}

fn conv<T>(r: Result<T, SendError<Hm, E>>, f: impl Fn(T) -> Res) -> Res {
    match r {
        Ok(v) => f(v),
        Err(SendError::ActorNotRunning(m)) => Res::NotRunning(Some(m.uid)),
        Err(SendError::MailboxFull(m)) => Res::Full(Some(m.uid)),
        Err(SendError::Timeout(m)) => Res::TimeoutSpace(m.map(|m| m.uid)),
        Err(SendError::ActorStopped) => Res::Stopped,
        Err(SendError::HandlerError(e)) => Res::HandlerErr(e),
    }
}

async fn hooked(cx: Cx, mut r: Rng) {
    let cap = *r.pick(&[0u64, 1, 2, 4, 64]);
    let mode = match r.below(8) {
        0 => Next::Recv,
        1 => Next::TryRecv,
        2 => Next::Many(r.range(1, 5) as usize),
        3 => Next::Poll,
        4 => Next::PollMany(r.range(1, 5) as usize),
        5 => Next::Merge,
        6 => Next::EndAfter(r.below(12)),
        _ => Next::CloseAfter(r.below(12)),
    };
    cx.evt(1, "mode", 0, 0, format!("{mode:?} cap {cap}"));
    let mail = if cap == 0 { kameo::mailbox::unbounded() } else { kameo::mailbox::bounded(cap as usize) };
    let prepared = PreparedActor::<H>::new(mail);
    let a = prepared.actor_ref().clone();
    let (etx, erx) = mpsc::unbounded_channel();
    let hm = |r: &mut Rng, from: u64| {
        let uid = cx.uid();
        Hm { uid, from, d: any_d(r), pay: payload(uid) }
    };
    let starting: Vec<Hm> = (0..r.below(3)).map(|_| hm(&mut r, 1001)).collect();
    let selfs: Vec<u64> = starting.iter().map(|m| m.uid).collect();
    let recs: Arc<Mutex<BTreeMap<u64, Rec>>> = Arc::default();
    let mut tasks = vec![];
    for c in 1..=r.range(1, 4) {
        let (cx, a, recs) = (cx.clone(), a.clone(), recs.clone());
        let mut r = r.fork();
        let ms: Vec<Hm> = (0..r.range(1, 8)).map(|_| hm(&mut r, c)).collect();
        tasks.push(tokio::spawn(async move {
            let mut later = vec![];
            for (i, m) in ms.into_iter().enumerate() {
                if r.chance(40) {
                    cx.pause(&mut r).await;
                }
                let uid = m.uid;
                let v = r.below(6);
                recs.lock().unwrap().insert(uid, Rec { m: m.clone(), ask: v >= 3, res: None, order: i as u64 });
                let _p = cx.pend(format!("sending {uid}"));
                let tell = |r: Result<(), SendError<Hm>>| conv(r.map_err(|e| e.map_err(|_| E(0))), |_| Res::Sent);
                let res = match v {
                    0 => tell(a.tell(m).await),
                    1 => tell(a.tell(m).try_send()),
                    2 => tell(a.clone().recipient::<Hm>().tell(m).await),
                    3 => conv(a.ask(m).await, Res::Reply),
                    4 => conv(a.ask(m).try_send().await, Res::Reply),
                    _ => match a.ask(m).enqueue().await {
                        Ok(p) => {
                            later.push((uid, p));
                            continue;
                        }
                        Err(e) => enq_err(e),
                    },
                };
                cx.evt(1, "ret", uid, 0, format!("{res:?}"));
                recs.lock().unwrap().get_mut(&uid).unwrap().res = Some(res);
            }
            for (uid, p) in later {
                let _p = cx.pend(format!("queued reply {uid}"));
                let res = conv(p.await, Res::Reply);
                cx.evt(1, "ret", uid, 0, format!("{res:?}"));
                recs.lock().unwrap().get_mut(&uid).unwrap().res = Some(res);
            }
        }));
    }
    let mut extras = vec![];
    if mode == Next::Merge {
        for _ in 0..r.range(1, 6) {
            let m = hm(&mut r, 500);
            extras.push(m.uid);
            let _ = etx.send(m);
        }
    }
    if r.chance(50) {
        cx.sleep(r.below(4)).await;
    }
    let end = prepared.spawn(H { cx: cx.clone(), mode, buf: VecDeque::new(), taken: 0, extra: erx, starting, passes: 0 });
    let mut pass = None;
    if r.chance(50) {
        let u = cx.uid() + 1_000_000;
        let _p = cx.pend("another type of message");
        pass = Some((u, a.ask(Pass(u)).await));
    }
    for t in tasks {
        let _p = cx.pend("client");
        let _ = t.await;
    }
    let endless = !matches!(mode, Next::EndAfter(_));
    cx.settle().await;
    let weak = a.downgrade();
    let by_stop = r.chance(50);
    if by_stop {
        let _p = cx.pend("stop");
        let _ = a.stop_gracefully().await;
    }
    if by_stop && !endless {
        // It may never receive the request, but ends by itself as soon as it has received enough
        for _ in 0..20 {
            let _ = a.tell(Pass(9_000_000)).try_send();
        }
    }
    drop(a);
    let (h, reason) = {
        let _p = cx.pend("end of actor");
        match end.await {
            Ok(x) => x,
            Err(e) => {
                cx.fail(&["C29", "C08"], "actor-task-failed", format!("{e}"));
                return;
            }
        }
    };
    cx.check(reason_text(&reason) == "normal", &["C29", "C08"], "hook-stop-reason", || reason_text(&reason));
    cx.check(weak.upgrade().is_none() || !by_stop, &["C09"], "upgraded-after-end", || "upgraded".into());
    let evs = cx.events();
    let om: Vec<(usize, u64)> = evs.iter().enumerate().filter(|(_, e)| e.kind == "om").map(|(i, e)| (i, e.a)).collect();
    cx.check(h.passes == om.len() as u64, &["C29"], "state-lost", || format!("{} {}", h.passes, om.len()));
    let started = evs.iter().position(|e| e.kind == "started");
    if let Some((i, u)) = om.first() {
        cx.check(started.map_or(false, |s| s < *i), &["C04", "C29"], "hook-before-start", || format!("message {u}"));
    }
    // Once each, in the order of each sender
    let recs = recs.lock().unwrap().clone();
    let mut last: BTreeMap<u64, u64> = BTreeMap::new();
    let mut seen = std::collections::HashSet::new();
    for (_, u) in &om {
        if *u >= 9_000_000 {
            continue;
        }
        cx.check(seen.insert(*u), &["C29", "C01"], "hook-twice", || format!("message {u} came through the hook twice"));
        if let Some(rec) = recs.get(u) {
            let l = last.entry(rec.m.from).or_default();
            cx.check(*l <= rec.order + 1, &["C29", "C01"], "hook-order", || format!("message {u} came after a later one"));
            *l = rec.order + 1;
        }
    }
    let panics: Vec<String> = evs.iter().filter(|e| e.kind == "panic").map(|e| e.text.clone()).collect();
    let mut want_panics = vec![];
    for (i, u) in &om {
        let m = match recs.get(u) {
            Some(rec) => Some((rec.m.d, rec.ask)),
            None => None,
        };
        if let Some((d, ask)) = m {
            let handled = evs[*i + 1..].iter().find(|e| matches!(e.kind, "om" | "h" | "panic" | "stop")).map_or(false, |e| e.kind == "h" && e.a == *u);
            cx.check(handled == matches!(d, D::Handle | D::Fail(_) | D::Panic), &["C29"], "hook-bypassed", || format!("message {u} ({d:?}) handled: {handled}"));
            match d {
                D::Panic => want_panics.push("vp handle".to_string()),
                D::HookPanic => want_panics.push("vp hook".to_string()),
                D::HookErr(n) => want_panics.push(format!("E({n})")),
                D::Fail(n) if !ask => want_panics.push(format!("E({n})")),
                _ => {}
            }
        }
    }
    if selfs.is_empty() && extras.is_empty() {
        cx.check(panics == want_panics, &["C29", "C10"], "hook-panics", || format!("panic hook got {panics:?}, expected {want_panics:?}"));
    }
    for (u, rec) in &recs {
        let got = rec.res.clone();
        let passed = seen.contains(u);
        let Some(res) = got else {
            cx.fail(&["C29", "C03"], "no-result", format!("message {u}"));
            continue;
        };
        if res.refused() {
            cx.check(!passed, &["C29", "C02"], "refused-but-handled", || format!("message {u}: {res:?}"));
            if matches!(res, Res::NotRunning(_)) {
                let ok = evs.iter().any(|e| matches!(e.kind, "ends_itself" | "closed" | "stop"));
                cx.check(ok, &["C29", "C02"], "not-running-while-running", || format!("message {u}"));
            }
            continue;
        }
        if endless {
            cx.check(passed, &["C29", "C01"], "hook-missed", || format!("message {u} was accepted ({res:?}) but did not come through the hook ({mode:?})"));
        }
        if rec.ask {
            let want = match (passed, rec.m.d) {
                (false, _) => Res::Stopped,
                (_, D::Handle | D::Later(_)) => Res::Reply(answer(*u)),
                (_, D::Reply(v)) => Res::Reply(v),
                (_, D::Fail(n) | D::ReplyErr(n)) => Res::HandlerErr(E(n)),
                _ => Res::Stopped,
            };
            cx.check(res == want, &["C29", "C03"], "hook-outcome", || format!("message {u} ({:?}) gave {res:?}, not {want:?}", rec.m.d));
        }
    }
    for u in selfs.iter().filter(|u| !evs.iter().any(|e| e.kind == "self_full" && e.a == **u)) {
        let ok = om.iter().filter(|o| o.1 == *u).count();
        cx.check(ok == 1 || (!endless && ok == 0), &["C29", "C04"], "hook-missed", || format!("own message {u} came {ok} times"));
    }
    for u in &extras {
        let n = om.iter().filter(|o| o.1 == *u).count();
        cx.check(n == 1, &["C29"], "merged-signal", || format!("merged message {u} came {n} times"));
    }
    if let Some((u, res)) = pass {
        match res {
            Ok(v) => {
                cx.check(v == u + 1, &["C29", "C03"], "other-reply", || format!("{v}"));
            }
            Err(e) => {
                let ok = matches!(mode, Next::EndAfter(_) | Next::CloseAfter(_));
                cx.check(ok, &["C29"], "hook-outcome", || format!("{e}"));
            }
        }
    }
    cx.stat("through_hook", om.len() as u64);
}

fn sig(k: u64) -> Signal<P> {
    Signal::LinkDied { id: ActorID::new(k), reason: ActorStopReason::Normal }
}
fn num(s: &Signal<P>) -> u64 {
    match s {
        Signal::LinkDied { id, .. } => id.sequence_id(),
        Signal::Stop => 7_000_000,
        _ => 8_000_000,
    }
}

/// The functions of both kinds of mailboxes against a queue.
async fn mailbox(cx: Cx, mut r: Rng) {
    let cap = *r.pick(&[0u64, 1, 2, 3, 7]);
    let (tx, mut rx) = mbox(cap);
    let (other, _orx) = mbox(if r.chance(50) { cap } else { 1 - cap.min(1) });
    let mut txs: Vec<MailboxSender<P>> = vec![tx];
    let mut weak = vec![];
    let mut q: VecDeque<u64> = VecDeque::new();
    let mut closed = false;
    let mut k = 0u64;
    let bad = |what: &str, detail: String| cx.fail(&["C29", "C13"], &format!("mailbox-{what}"), detail);
    for _ in 0..r.range(5, 60) {
        let room = cap == 0 || (q.len() as u64) < cap;
        match r.below(20) {
            0..=5 => {
                if let Some(tx) = txs.first() {
                    k += 1;
                    let res = tokio::time::timeout(cx.dur(5), tx.send(sig(k))).await;
                    match res {
                        Ok(Ok(())) => {
                            if closed || !room {
                                bad("send", format!("accepted though closed: {closed}, {} of {cap} queued", q.len()));
                            }
                            q.push_back(k);
                        }
                        Ok(Err(e)) => {
                            if !closed || num(&e.0) != k {
                                bad("send", format!("refused though not closed, or another signal back ({} for {k})", num(&e.0)));
                            }
                        }
                        Err(_) => {
                            if room || closed {
                                bad("send", format!("waits with {} of {cap} queued, closed: {closed}", q.len()));
                            }
                        }
                    }
                }
            }
            6..=8 => {
                let got = rx.try_recv();
                let want = q.pop_front();
                match (&got, want) {
                    (Ok(s), Some(w)) if num(s) == w => {}
                    (Err(e), None) => {
                        let dis = *e == tokio::sync::mpsc::error::TryRecvError::Disconnected;
                        if dis != (txs.is_empty() || closed) {
                            bad("try-recv", format!("{e:?} with {} senders, closed: {closed}", txs.len()));
                        }
                    }
                    _ => bad("try-recv", format!("{:?} but {want:?} was first", got.as_ref().map(num))),
                }
            }
            9 | 10 => {
                let got = tokio::time::timeout(cx.dur(5), async {
                    if r.chance(50) {
                        rx.recv().await
                    } else {
                        poll_fn(|c| rx.poll_recv(c)).await
                    }
                })
                .await;
                let want = q.pop_front();
                let ok = match (&got, want) {
                    (Ok(Some(s)), Some(w)) => num(s) == w,
                    (Ok(None), None) => closed || txs.is_empty(),
                    (Err(_), None) => !closed && !txs.is_empty(),
                    _ => false,
                };
                if !ok {
                    bad("recv", format!("got {:?} but {want:?} was first (closed: {closed}, {} senders)", got.as_ref().map(|s| s.as_ref().map(num)), txs.len()));
                }
            }
            11 | 12 => {
                let limit = r.range(1, 6) as usize;
                let mut v = vec![sig(999_999)];
                let got = tokio::time::timeout(cx.dur(5), async {
                    if r.chance(50) {
                        rx.recv_many(&mut v, limit).await
                    } else {
                        poll_fn(|c| rx.poll_recv_many(c, &mut v, limit)).await
                    }
                })
                .await;
                let n = q.len().min(limit);
                let want: Vec<u64> = std::iter::once(999_999).chain(q.drain(..n)).collect();
                let have: Vec<u64> = v.iter().map(num).collect();
                let ok = have == want
                    && match got {
                        Ok(m) => m == n && (n > 0 || closed || txs.is_empty()),
                        Err(_) => n == 0 && !closed && !txs.is_empty(),
                    };
                if !ok {
                    bad("recv-many", format!("limit {limit}: {got:?} {have:?}, expected {want:?}"));
                }
            }
            13 => {
                if let Some(t) = txs.first() {
                    txs.push(t.clone());
                }
            }
            14 => {
                if let Some(t) = txs.first() {
                    weak.push(t.downgrade());
                }
            }
            15 => {
                if !txs.is_empty() && r.chance(60) {
                    txs.pop();
                }
            }
            16 => {
                if let Some(w) = weak.last() {
                    let w = w.clone();
                    match w.upgrade() {
                        Some(t) => txs.push(t),
                        None => {
                            if !txs.is_empty() {
                                bad("upgrade", "a weak sender was not upgraded though senders exist".into());
                            }
                        }
                    }
                }
            }
            17 => {
                weak.pop();
            }
            18 => {
                if r.chance(15) {
                    rx.close();
                    closed = true;
                }
            }
            _ => {
                if let (Some(a), Some(b)) = (txs.first(), txs.last()) {
                    if !a.same_channel(b) || a.same_channel(&other) || other.same_channel(a) {
                        bad("same-channel", "same_channel is wrong".into());
                    }
                    let gone = tokio::time::timeout(cx.dur(2), a.closed()).await.is_ok();
                    if gone != closed || a.is_closed() != closed {
                        bad("closed", format!("closed() {gone}, is_closed {}, closed: {closed}", a.is_closed()));
                    }
                }
            }
        }
        let (l, e, s, w) = (rx.len(), rx.is_empty(), rx.sender_strong_count(), rx.sender_weak_count());
        if l != q.len() || e != q.is_empty() {
            bad("len", format!("len {l}, is_empty {e}, but {} are queued", q.len()));
        }
        if s != txs.len() || w != weak.len() {
            bad("counts", format!("strong {s}, weak {w}, but there are {} and {}", txs.len(), weak.len()));
        }
        if let Some(t) = txs.first() {
            if t.strong_count() != txs.len() || t.weak_count() != weak.len() {
                bad("counts", format!("sender says strong {}, weak {}, but there are {} and {}", t.strong_count(), t.weak_count(), txs.len(), weak.len()));
            }
        }
        if let Some(t) = weak.first() {
            if t.strong_count() != txs.len() || t.weak_count() != weak.len() {
                bad("counts", format!("weak sender says strong {}, weak {}, but there are {} and {}", t.strong_count(), t.weak_count(), txs.len(), weak.len()));
            }
        }
        if rx.is_closed() != (closed || txs.is_empty()) {
            bad("closed", format!("receiver's is_closed {}, closed: {closed}, {} senders", rx.is_closed(), txs.len()));
        }
        cx.ev(0, "mailbox", q.len() as u64, (txs.len() * 10 + weak.len()) as u64 * 2 + closed as u64);
    }
    cx.stat("mailbox_ops", 1);
}

/// Blocking receiving in a thread gives the same signals in the same order.
fn mailbox_threads(cx: Cx, mut r: Rng) {
    let cap = *r.pick(&[0u64, 1, 2, 8]);
    let (tx, mut rx) = mbox(cap);
    let n = r.range(5, 60);
    let mut r2 = r.fork();
    let cx2 = cx.clone();
    let h = std::thread::spawn(move || {
        let mut got = vec![];
        loop {
            let _p = cx2.pend("blocking receive");
            if r2.chance(50) {
                match rx.blocking_recv() {
                    Some(s) => got.push(num(&s)),
                    None => break,
                }
            } else {
                let limit = r2.range(1, 5) as usize;
                let mut v = vec![];
                let k = rx.blocking_recv_many(&mut v, limit);
                if k != v.len() || k > limit {
                    cx2.fail(&["C29", "C27"], "mailbox-recv-many", format!("limit {limit}, returned {k}, gave {}", v.len()));
                }
                if k == 0 {
                    break;
                }
                got.extend(v.iter().map(num));
            }
        }
        got
    });
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    rt.block_on(async {
        for k in 1..=n {
            if r.chance(20) {
                std::thread::yield_now();
            }
            if tx.send(sig(k)).await.is_err() {
                cx.fail(&["C29"], "mailbox-send", "refused");
            }
        }
    });
    drop(tx);
    let got = h.join().unwrap();
    cx.ev(0, "received", got.len() as u64, cap);
    cx.check(got == (1..=n).collect::<Vec<_>>(), &["C29", "C27"], "mailbox-recv", || format!("{got:?}"));
}
