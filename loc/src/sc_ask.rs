//! Replies: many asks of many types in flight, forwarded and delegated replies.
use std::{collections::HashMap, ops::ControlFlow, sync::{Arc, Mutex}, time::Duration};

use futures::FutureExt;
use kameo::{prelude::*, reply::{ForwardedReply, ReplySender}};
use tokio::sync::Semaphore;

use crate::{core::*, det, mt, probe::*, Family};

pub fn families() -> Vec<Family> {
    vec![
        det("askmany", &["C03", "C10"], 15, |cx, r| askmany(cx, r).boxed()),
        mt("askmany-mt", &["C03", "C26"], 5, 4, |cx, r| askmany(cx, r).boxed()),
        det("askdrop", &["C03", "C01"], 15, |cx, r| askdrop(cx, r).boxed()),
        det("forward", &["C14", "C03"], 20, |cx, r| forward(cx, r).boxed()),
        mt("forward-mt", &["C14"], 6, 4, |cx, r| forward(cx, r).boxed()),
        det("delegate", &["C14", "C03"], 20, |cx, r| delegate(cx, r).boxed()),
        mt("delegate-mt", &["C14"], 6, 4, |cx, r| delegate(cx, r).boxed()),
    ]
}

// ---- replies of many types

struct Q {
    cx: Cx,
    n: u64,
}
impl Actor for Q {
    type Error = E;
    async fn on_panic(&mut self, _: WeakActorRef<Self>, e: PanicError) -> Result<ControlFlow<ActorStopReason>, E> {
        self.cx.evt(1, "panic", 0, 0, perr_text(&e));
        Ok(ControlFlow::Continue(()))
    }
}
#[derive(Clone, Debug, PartialEq)]
struct K {
    uid: u64,
    ms: u64,
    bad: bool,
}
#[derive(Clone, Debug, PartialEq)]
struct Big([u64; 40], String);
macro_rules! kind {
    ($name:ident, $ty:ty, $make:expr) => {
        #[derive(Clone, Debug, PartialEq)]
        struct $name(K);
        impl Message<$name> for Q {
            type Reply = $ty;
            async fn handle(&mut self, m: $name, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
                self.cx.ev(1, "h", m.0.uid, 0);
                if m.0.ms > 0 {
                    self.cx.sleep(m.0.ms).await;
                }
                self.n += 1;
                if m.0.bad {
                    panic!("vp {}", m.0.uid);
                }
                self.cx.ev(1, "h_end", m.0.uid, 0);
                let f: fn(u64) -> $ty = $make;
                f(m.0.uid)
            }
        }
    };
}
kind!(KU, u64, |u| answer(u));
kind!(KS, String, |u| payload(u));
kind!(KV, Vec<u64>, |u| (0..u % 9).map(|i| answer(u + i)).collect());
kind!(KO, Option<Box<u64>>, |u| (u % 2 == 0).then(|| Box::new(u)));
kind!(KR, Result<String, u64>, |u| if u % 3 == 0 { Err(answer(u)) } else { Ok(payload(u)) });
kind!(KN, (), |_| ());
kind!(KB, Box<Big>, |u| Box::new(Big([u; 40], payload(u))));
kind!(KM, HashMap<u64, String>, |u| HashMap::from([(u, payload(u)), (u + 1, payload(u + 1))]));
kind!(KE, Result<(), E>, |u| if u % 2 == 0 { Err(E(u)) } else { Ok(()) });

/// Describes any reply, to compare it with what was expected.
fn show<T: std::fmt::Debug, M, Er: std::fmt::Debug>(r: Result<T, SendError<M, Er>>) -> String {
    match r {
        Ok(v) => format!("ok {v:?}"),
        Err(SendError::HandlerError(e)) => format!("err {e:?}"),
        Err(SendError::ActorStopped) => "stopped".into(),
        Err(SendError::ActorNotRunning(_)) => "not running".into(),
        Err(SendError::MailboxFull(_)) => "full".into(),
        Err(SendError::Timeout(Some(_))) => "timeout space".into(),
        Err(SendError::Timeout(None)) => "timeout reply".into(),
    }
}

async fn ask_kind(kind: u64, a: ActorRef<Q>, k: K, queued: bool) -> futures::future::BoxFuture<'static, String> {
    macro_rules! go {
        ($t:ident) => {{
            if queued {
                // The pending reply borrows the reference
                let fut = Box::pin(async move {
                    let p = a.ask($t(k)).enqueue().await;
                    match p {
                        Ok(p) => show(p.await),
                        Err(e) => format!("enqueue {e:?}"),
                    }
                });
                // Starts it: an unbounded mailbox takes the message at once
                let mut fut = fut.boxed();
                match futures::poll!(&mut fut) {
                    std::task::Poll::Ready(s) => async move { s }.boxed(),
                    std::task::Poll::Pending => fut,
                }
            } else {
                let s = show(a.ask($t(k)).send().await);
                async move { s }.boxed()
            }
        }};
    }
    match kind {
        0 => go!(KU),
        1 => go!(KS),
        2 => go!(KV),
        3 => go!(KO),
        4 => go!(KR),
        5 => go!(KN),
        6 => go!(KB),
        7 => go!(KM),
        _ => go!(KE),
    }
}

fn expected(kind: u64, uid: u64, bad: bool) -> String {
    if bad {
        return "stopped".into();
    }
    match kind {
        0 => format!("ok {:?}", answer(uid)),
        1 => format!("ok {:?}", payload(uid)),
        2 => format!("ok {:?}", (0..uid % 9).map(|i| answer(uid + i)).collect::<Vec<_>>()),
        3 => format!("ok {:?}", (uid % 2 == 0).then(|| Box::new(uid))),
        4 => {
            if uid % 3 == 0 {
                format!("err {:?}", answer(uid))
            } else {
                format!("ok {:?}", payload(uid))
            }
        }
        5 => "ok ()".into(),
        6 => format!("ok {:?}", Big([uid; 40], payload(uid))),
        7 => String::new(),
        _ => {
            if uid % 2 == 0 {
                format!("err {:?}", E(uid))
            } else {
                "ok ()".into()
            }
        }
    }
}

async fn askmany(cx: Cx, mut r: Rng) {
    let a = kameo::actor::spawn_with_mailbox(Q { cx: cx.clone(), n: 0 }, kameo::mailbox::unbounded());
    let bad = *r.pick(&[0, 0, 15, 40]);
    let mut tasks = vec![];
    for c in 0..r.range(1, 4) {
        let (cx, a) = (cx.clone(), a.clone());
        let mut r = r.fork();
        tasks.push(tokio::spawn(async move {
            let mut pend = vec![];
            for _ in 0..r.range(3, 20) {
                if r.chance(30) {
                    cx.pause(&mut r).await;
                }
                let kind = r.below(9);
                let k = K { uid: cx.uid(), ms: if r.chance(40) { r.range(1, 6) } else { 0 }, bad: r.chance(bad) };
                let want = expected(kind, k.uid, k.bad);
                cx.ev(1, "call", k.uid, c);
                let f = {
                    let _p = cx.pend(format!("ask of type {kind}"));
                    ask_kind(kind, a.clone(), k.clone(), r.chance(70)).await
                };
                pend.push((k, kind, want, f));
                if r.chance(25) {
                    let i = r.us(pend.len());
                    judge(&cx, pend.remove(i)).await;
                }
            }
            r.shuffle(&mut pend);
            for p in pend {
                if r.chance(15) {
                    continue;
                }
                judge(&cx, p).await;
            }
        }));
    }
    for t in tasks {
        let _p = cx.pend("asker");
        if t.await.is_err() {
            cx.fail(&["C03"], "asker-panicked", "a task asking panicked");
        }
    }
    let panics = cx.events().iter().filter(|e| e.kind == "panic").count();
    let _ = panics;
}

async fn judge(cx: &Cx, (k, kind, want, f): (K, u64, String, futures::future::BoxFuture<'static, String>)) {
    let _p = cx.pend(format!("queued reply {} of type {kind}", k.uid));
    let got = f.await;
    cx.ev(1, "ret", k.uid, kind);
    cx.stat("replies", 1);
    if kind == 7 && !k.bad {
        let ok = got.starts_with("ok {") && got.contains(&format!("{}: {:?}", k.uid, payload(k.uid))) && got.contains(&format!("{}: {:?}", k.uid + 1, payload(k.uid + 1)));
        cx.check(ok, &["C03"], "other-reply", || format!("ask {} of a map gave {got}", k.uid));
    } else {
        cx.check(got == want, &["C03"], "other-reply", || format!("ask {} of type {kind} gave {got}, not {want}", k.uid));
    }
}

/// Askers which give up at any point disturb nobody.
async fn askdrop(cx: Cx, mut r: Rng) {
    let cap = any_cap(&mut r);
    let a: ActorRef<P> = kameo::actor::spawn_with_mailbox(P::new(&cx, 1, Plan::resilient()), mbox(cap));
    let mut tasks = vec![];
    let accepted: Arc<Mutex<Vec<u64>>> = Default::default();
    for c in 1..=r.range(2, 5) {
        let (cx, a, accepted) = (cx.clone(), a.clone(), accepted.clone());
        let mut r = r.fork();
        tasks.push(tokio::spawn(async move {
            for _ in 0..r.range(2, 12) {
                cx.pause(&mut r).await;
                let op = Op::with(&cx, c, any_steps(&mut r), if r.chance(10) { any_panic(&mut r) } else { Out::Ok });
                let (uid, out) = (op.uid, op.out);
                let patience = r.range(0, 20);
                let give_up = r.chance(50);
                cx.ev(1, "call", uid, c);
                let res = match r.below(4) {
                    0 if give_up => match tokio::time::timeout(cx.dur(patience), a.ask(op).send()).await {
                        Ok(r) => Some(ask_res(r)),
                        Err(_) => None,
                    },
                    1 if give_up => match tokio::time::timeout(cx.dur(patience), a.ask(op).enqueue()).await {
                        Ok(Ok(p)) => {
                            accepted.lock().unwrap().push(uid);
                            tokio::time::timeout(cx.dur(patience), p).await.ok().map(ask_res)
                        }
                        _ => None,
                    },
                    2 if give_up => {
                        // Aborted while it waits
                        let a2 = a.clone();
                        let t = tokio::spawn(async move { a2.ask(op).send().await });
                        cx.sleep(patience).await;
                        t.abort();
                        t.await.ok().map(ask_res)
                    }
                    _ => {
                        let _p = cx.pend(format!("ask {uid}"));
                        Some(ask_res(a.ask(op).send().await))
                    }
                };
                if let Some(res) = res {
                    cx.ev(1, "ret", uid, res.code());
                    let want = if out == Out::Ok { Res::Reply(answer(uid)) } else { Res::Stopped };
                    cx.check(res == want, &["C03"], "other-reply", || format!("ask {uid} gave {res:?}, not {want:?}"));
                    accepted.lock().unwrap().push(uid);
                } else {
                    cx.stat("given_up", 1);
                }
            }
        }));
    }
    for t in tasks {
        let _p = cx.pend("asker");
        if t.await.is_err() {
            cx.fail(&["C03"], "asker-panicked", "a task asking panicked");
        }
    }
    cx.settle().await;
    let _p = cx.pend("final ask");
    let got = a.ask(Get).await;
    let evs = cx.events();
    let n = evs.iter().filter(|e| e.kind == "h").count() as u64;
    cx.check(matches!(got, Ok((k, _)) if k == n), &["C03", "C10"], "disturbed", || format!("{n} handled, state is {got:?}"));
    for uid in accepted.lock().unwrap().iter() {
        let k = evs.iter().filter(|e| e.kind == "h" && e.a == *uid).count();
        cx.check(k == 1, &["C01", "C03"], "accepted-not-handled-once", || format!("message {uid} was handled {k} times"));
    }
}

// ---- forwarding

struct F {
    n: u32,
    cx: Cx,
    panics: Arc<Mutex<Vec<String>>>,
    kept: Arc<Mutex<Vec<(u64, Out, ReplySender<Result<u64, E>>)>>>,
}
impl Actor for F {
    type Error = E;
    async fn on_panic(&mut self, _: WeakActorRef<Self>, e: PanicError) -> Result<ControlFlow<ActorStopReason>, E> {
        let t = fwd_text(&e);
        self.cx.evt(self.n, "panic", 0, 0, t.clone());
        self.panics.lock().unwrap().push(t);
        Ok(ControlFlow::Continue(()))
    }
}

/// The terminal message.
#[derive(Clone)]
struct L0 {
    uid: u64,
    out: Out,
    ms: u64,
}
#[derive(Clone)]
struct Hop {
    /// 0 forward, 1 try_forward
    how: u64,
    to: ActorRef<F>,
}
#[derive(Clone)]
struct L1(Hop, L0);
#[derive(Clone)]
struct L2(Hop, L1);
#[derive(Clone)]
struct L3(Hop, L2);

type R0 = Result<u64, E>;
type R1 = ForwardedReply<L0, R0>;
type R2 = ForwardedReply<L1, R1>;
type R3 = ForwardedReply<L2, R2>;
type E1 = SendError<L0, E>;
type E2 = SendError<L1, E1>;
type E3 = SendError<L2, E2>;

macro_rules! dbg_uid {
    ($t:ident, $($f:tt)*) => {
        impl std::fmt::Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, concat!(stringify!($t), "({})"), self.$($f)*)
            }
        }
    };
}
dbg_uid!(L0, uid);
dbg_uid!(L1, 1.uid);
dbg_uid!(L2, 1 .1.uid);
dbg_uid!(L3, 1 .1 .1.uid);

fn fwd_text(e: &PanicError) -> String {
    if let Some(s) = e.with_downcast_ref(|e: &E1| format!("1:{e:?}")) {
        return s;
    }
    if let Some(s) = e.with_downcast_ref(|e: &E2| format!("2:{e:?}")) {
        return s;
    }
    if let Some(s) = e.with_downcast_ref(|e: &E3| format!("3:{e:?}")) {
        return s;
    }
    perr_text(e)
}

impl Message<L0> for F {
    type Reply = R0;
    async fn handle(&mut self, m: L0, _: &mut Context<Self, R0>) -> R0 {
        self.cx.ev(self.n, "h", m.uid, 0);
        if m.ms > 0 {
            self.cx.sleep(m.ms).await;
        }
        do_panic(m.out);
        match m.out {
            Out::Fail(n) => Err(E(n)),
            _ => Ok(answer(m.uid)),
        }
    }
}
impl Message<L1> for F {
    type Reply = R1;
    async fn handle(&mut self, m: L1, ctx: &mut Context<Self, R1>) -> R1 {
        self.cx.ev(self.n, "hop", m.1.uid, 1);
        match m.0.how {
            0 => ctx.forward(&m.0.to, m.1).await,
            _ => ctx.try_forward(&m.0.to, m.1),
        }
    }
}
impl Message<L2> for F {
    type Reply = R2;
    async fn handle(&mut self, m: L2, ctx: &mut Context<Self, R2>) -> R2 {
        self.cx.ev(self.n, "hop", m.1 .1.uid, 2);
        match m.0.how {
            0 => ctx.forward(&m.0.to, m.1).await,
            _ => ctx.try_forward(&m.0.to, m.1),
        }
    }
}
impl Message<L3> for F {
    type Reply = R3;
    async fn handle(&mut self, m: L3, ctx: &mut Context<Self, R3>) -> R3 {
        self.cx.ev(self.n, "hop", m.1 .1 .1.uid, 3);
        match m.0.how {
            0 => ctx.forward(&m.0.to, m.1).await,
            _ => ctx.try_forward(&m.0.to, m.1),
        }
    }
}
/// Occupies the actor.
struct Hold(Arc<Semaphore>);
impl Message<Hold> for F {
    type Reply = ();
    async fn handle(&mut self, m: Hold, _: &mut Context<Self, ()>) {
        if let Ok(p) = m.0.acquire().await {
            p.forget();
        }
    }
}

struct World {
    refs: Vec<ActorRef<F>>,
    dead: Vec<bool>,
    full: Vec<bool>,
    gate: Arc<Semaphore>,
    panics: Arc<Mutex<Vec<String>>>,
    kept: Arc<Mutex<Vec<(u64, Out, ReplySender<Result<u64, E>>)>>>,
}

async fn world(cx: &Cx, r: &mut Rng) -> World {
    let n = r.range(2, 5) as usize;
    let mut w = World { refs: vec![], dead: vec![], full: vec![], gate: Arc::new(Semaphore::new(0)), panics: Default::default(), kept: Default::default() };
    for i in 0..n {
        let full = i > 0 && r.chance(15);
        let dead = !full && i > 0 && r.chance(20);
        let f = F { n: i as u32, cx: cx.clone(), panics: w.panics.clone(), kept: w.kept.clone() };
        let a = if full {
            kameo::actor::spawn_with_mailbox(f, kameo::mailbox::bounded(1))
        } else if r.chance(50) {
            kameo::actor::spawn_with_mailbox(f, kameo::mailbox::unbounded())
        } else {
            kameo::actor::spawn_with_mailbox(f, kameo::mailbox::bounded(5000))
        };
        if full {
            a.wait_for_startup().await;
            let _ = a.tell(Hold(w.gate.clone())).await;
            let _ = a.tell(Hold(w.gate.clone())).await;
            // The first was taken once the second and a third one fit
            cx.settle().await;
            while a.tell(Hold(w.gate.clone())).try_send().is_ok() {}
        }
        if dead {
            if r.chance(50) {
                a.kill();
            } else {
                let _ = a.stop_gracefully().await;
            }
            a.wait_for_shutdown().await;
        }
        w.refs.push(a);
        w.dead.push(dead);
        w.full.push(full);
    }
    w
}

/// One result, wherever in the nested errors it is: the level at which sending failed, and the message given back.
#[derive(Clone, Debug, PartialEq)]
enum FR {
    Reply(u64),
    Err(u64),
    Stopped,
    Failed(u64, &'static str, u64),
    Odd(String),
}
trait Uid {
    fn uid(&self) -> u64;
    const LEVEL: u64;
}
macro_rules! uid {
    ($t:ident, $l:expr, $($f:tt)*) => {
        impl Uid for $t {
            fn uid(&self) -> u64 {
                self.$($f)*
            }
            const LEVEL: u64 = $l;
        }
    };
}
uid!(L0, 0, uid);
uid!(L1, 1, 1.uid);
uid!(L2, 2, 1 .1.uid);
uid!(L3, 3, 1 .1 .1.uid);

trait Canon {
    fn canon(self, top: bool) -> FR;
}
impl Canon for E {
    fn canon(self, _: bool) -> FR {
        FR::Err(self.0)
    }
}
impl<M: Uid, X: Canon> Canon for SendError<M, X> {
    fn canon(self, top: bool) -> FR {
        match self {
            SendError::ActorNotRunning(m) => FR::Failed(M::LEVEL, "not running", m.uid()),
            SendError::MailboxFull(m) => FR::Failed(M::LEVEL, "full", m.uid()),
            SendError::Timeout(Some(m)) => FR::Failed(M::LEVEL, "timeout", m.uid()),
            SendError::Timeout(None) => FR::Odd("timeout".into()),
            SendError::ActorStopped if top => FR::Stopped,
            SendError::ActorStopped => FR::Odd("stopped inside".into()),
            SendError::HandlerError(e) => e.canon(false),
        }
    }
}
fn canon<X: Canon>(r: Result<u64, X>) -> FR {
    match r {
        Ok(n) => FR::Reply(n),
        Err(e) => e.canon(true),
    }
}

async fn forward(cx: Cx, mut r: Rng) {
    let w = world(&cx, &mut r).await;
    let n = w.refs.len();
    // (uid, route of (how, index), ask?, outcome, result)
    type Rec = (u64, Vec<(u64, usize)>, bool, Out, Option<FR>);
    let recs: Arc<Mutex<HashMap<u64, Rec>>> = Default::default();
    let mut tasks = vec![];
    let begin_ms = cx.ms();
    for _ in 0..r.range(2, 14) {
        let uid = cx.uid();
        let levels = r.range(1, 3) as usize;
        // route[0] is the first actor, reached by the client; then one per hop
        let mut route: Vec<(u64, usize)> = (0..=levels).map(|_| (r.below(2), r.us(n))).collect();
        for i in 1..route.len() {
            // Two busy actors waiting for each other's space would never end
            while w.full[route[i].1] && w.full[route[i - 1].1] {
                route[i].1 = r.us(n);
            }
        }
        let out = match r.below(6) {
            0 => Out::Fail(r.below(100)),
            1 => any_panic(&mut r),
            _ => Out::Ok,
        };
        let l0 = L0 { uid, out, ms: if r.chance(40) { r.range(1, 5) } else { 0 } };
        let hop = |i: usize| Hop { how: route[i].0, to: w.refs[route[i].1].clone() };
        let ask = r.chance(70);
        let how = r.below(3);
        recs.lock().unwrap().insert(uid, (uid, route.clone(), ask, out, None));
        let first = w.refs[route[0].1].clone();
        let late = r.below(20);
        let (cx, recs) = (cx.clone(), recs.clone());
        macro_rules! go {
            ($m:expr) => {{
                let m = $m;
                tasks.push(tokio::spawn(async move {
                    cx.sleep(late).await;
                    let _p = cx.pend(format!("forwarded message {uid}, ask {ask}"));
                    cx.ev(99, "call", uid, ask as u64);
                    let res = if ask {
                        Some(match how {
                            0 => canon(first.ask(m).send().await),
                            1 => match first.ask(m).enqueue().await {
                                Ok(p) => canon(p.await),
                                Err(SendError::ActorNotRunning(())) => FR::Failed(levels as u64, "not running", uid),
                                Err(e) => FR::Odd(format!("{e:?}")),
                            },
                            _ => canon(first.ask(m).await),
                        })
                    } else {
                        match first.tell(m).send().await {
                            Ok(()) => None,
                            Err(e) => Some(e.map_err(|_| E(0)).canon(true)),
                        }
                    };
                    cx.evt(99, "ret", uid, 0, format!("{res:?}"));
                    recs.lock().unwrap().get_mut(&uid).unwrap().4 = res;
                }));
            }};
        }
        match levels {
            1 => go!(L1(hop(1), l0)),
            2 => go!(L2(hop(1), L1(hop(2), l0))),
            _ => go!(L3(hop(1), L2(hop(2), L1(hop(3), l0)))),
        }
    }
    cx.sleep(200).await;
    let opened = cx.ev(99, "open", 0, 0);
    w.gate.add_permits(10_000);
    for t in tasks {
        let _p = cx.pend("sender");
        if t.await.is_err() {
            cx.fail(&["C14"], "asker-panicked", "a task asking panicked");
        }
    }
    cx.settle().await;
    cx.settle().await;
    let evs = cx.events();
    let panics = w.panics.lock().unwrap().clone();
    let mut want_panics: Vec<String> = vec![];
    let mut sure = true;
    let _ = begin_ms;
    for (uid, (_, route, ask, out, res)) in recs.lock().unwrap().iter() {
        let levels = route.len() - 1;
        let handled = evs.iter().filter(|e| e.kind == "h" && e.a == *uid).count();
        // Where it got stuck
        let mut stuck: Option<(usize, &'static str, bool)> = None;
        for (i, (how, to)) in route.iter().enumerate() {
            if w.dead[*to] {
                stuck = Some((i, "not running", true));
                break;
            }
            if w.full[*to] && i > 0 && *how == 1 {
                // The hop was made before the others went on, or not
                let level = (levels - i + 1) as u64;
                let at = evs.iter().position(|e| e.kind == "hop" && e.a == *uid && e.b == level);
                let open = at.map_or(false, |p| p > opened);
                stuck = Some((i, "full", !open && cx.det()));
                break;
            }
        }
        let done = match out {
            Out::Fail(n) => FR::Err(*n),
            Out::Ok => FR::Reply(answer(*uid)),
            _ => FR::Stopped,
        };
        let got = res.clone();
        let last = w.refs.len();
        let _ = last;
        let mut options: Vec<(FR, usize)> = vec![];
        match stuck {
            Some((i, what, certain)) => {
                options.push((FR::Failed((levels - i) as u64, what, *uid), 0));
                if !certain {
                    // It may have got past it, and a later one may be full or dead
                    sure = false;
                    for (j, (_, to)) in route.iter().enumerate().skip(i + 1) {
                        if w.dead[*to] {
                            options.push((FR::Failed((levels - j) as u64, "not running", *uid), 0));
                            break;
                        }
                        if w.full[*to] && route[j].0 == 1 {
                            options.push((FR::Failed((levels - j) as u64, "full", *uid), 0));
                        }
                    }
                    options.push((done.clone(), 1));
                }
            }
            None => options.push((done.clone(), 1)),
        }
        if *ask || stuck.map_or(false, |s| s.0 == 0) {
            let ok = match &got {
                Some(g) => options.iter().any(|(o, h)| o == g && *h == handled),
                None => false,
            };
            cx.check(ok, &["C14"], "forwarded-result", || format!("message {uid} by {route:?} (dead {:?}, full {:?}) gave {got:?}, handled {handled} times, expected one of {options:?}", w.dead, w.full));
            cx.stat("forwarded_asks", 1);
        } else {
            let ok = got.is_none() && options.iter().any(|(_, h)| *h == handled);
            cx.check(ok, &["C14"], "forwarded-tell", || format!("told message {uid} by {route:?} gave {got:?}, handled {handled} times, expected {options:?}"));
            cx.stat("forwarded_tells", 1);
        }
        if !*ask {
            if let Some((FR::Failed(level, what, u), _)) = options.first().filter(|_| stuck.map_or(false, |s| s.0 > 0)) {
                let m = format!("L{level}({u})");
                want_panics.push(format!("{}:{}", level + 1, if *what == "full" { format!("MailboxFull") } else { format!("ActorNotRunning") }));
                let _ = m;
            } else if let (None, Out::Fail(n)) = (stuck, out) {
                want_panics.push(format!("E({n})"));
            }
        }
        if stuck.is_none() && !matches!(out, Out::Ok | Out::Fail(_)) {
            want_panics.push(out_text(*out));
        }
        cx.check(handled <= 1, &["C14", "C01"], "handled-twice", || format!("forwarded message {uid} was handled {handled} times"));
    }
    if sure {
        let mut got: Vec<String> = panics.iter().map(|p| p.split('(').next().filter(|s| s.contains("Actor") || s.contains("Mailbox")).map(|s| s.to_string()).unwrap_or(p.clone())).collect();
        got.sort();
        want_panics.sort();
        cx.check(got == want_panics, &["C14", "C10"], "forwarding-panics", || format!("panic hooks got {got:?}, expected {want_panics:?}"));
    }
}

// ---- delegation

#[derive(Clone)]
enum Way {
    /// Replies at once, going on with its work.
    Early,
    /// Replies from a task.
    Task(u64),
    /// From a thread outside of the runtime.
    Thread,
    /// Never replies.
    Drop,
    /// Kept until the actor has ended.
    Keep,
    /// On to another actor, which does the rest.
    On(u64, ActorRef<F>, Box<Way>),
    /// To the terminal handler.
    Plain(u64, ActorRef<F>),
    /// Panics after taking the handle.
    Panic,
    /// The handle given away, then the actor panics.
    TaskPanic(u64),
}
struct D {
    uid: u64,
    out: Out,
    way: Way,
}
struct Dctx {
    uid: u64,
    out: Out,
    how: u64,
    to: ActorRef<F>,
}

fn result(uid: u64, out: Out) -> R0 {
    match out {
        Out::Fail(n) => Err(E(n)),
        _ => Ok(answer(uid)),
    }
}

impl Message<D> for F {
    type Reply = DelegatedReply<R0>;
    async fn handle(&mut self, m: D, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let D { uid, out, way } = m;
        self.cx.ev(self.n, "hop", uid, 0);
        if let Way::Early = way {
            let d = ctx.reply(result(uid, out));
            self.cx.sleep(3).await;
            return d;
        }
        let (d, tx) = ctx.reply_sender();
        let again = ctx.reply_sender().1.is_some();
        self.cx.check(!again, &["C14"], "reply-handle-twice", || "the reply handle was given out twice".into());
        let had = tx.is_some();
        self.cx.ev(self.n, "handle", uid, had as u64);
        match way {
            Way::Early => {}
            Way::Task(ms) | Way::TaskPanic(ms) => {
                let cx = self.cx.clone();
                tokio::spawn(async move {
                    cx.sleep(ms).await;
                    if let Some(tx) = tx {
                        tx.send(result(uid, out));
                    }
                });
                if let Way::TaskPanic(_) = way {
                    panic!("vp delegated");
                }
            }
            Way::Thread => {
                let t = std::thread::spawn(move || {
                    if let Some(tx) = tx {
                        tx.send(result(uid, out));
                    }
                });
                let _ = t.join();
            }
            Way::Drop => drop(tx),
            Way::Panic => {
                let _tx = tx;
                panic!("vp delegated");
            }
            Way::Keep => {
                if let Some(tx) = tx {
                    self.kept.lock().unwrap().push((uid, out, tx));
                }
            }
            Way::On(how, to, rest) => {
                let m = D { uid, out, way: *rest };
                match tx {
                    Some(tx) => {
                        let res = match how {
                            0 => to.ask(m).forward(tx).await,
                            1 => to.ask(m).try_forward(tx),
                            _ => to.ask(m).mailbox_timeout(self.cx.dur(7)).forward(tx).await,
                        };
                        self.back(res.map_err(|e| e.map_msg(|(m, tx)| (m.uid, tx))), uid);
                    }
                    None => {
                        let _ = to.tell(m).try_send();
                    }
                }
            }
            Way::Plain(how, to) => {
                let m = L0 { uid, out, ms: 1 };
                match tx {
                    Some(tx) => {
                        let res = match how {
                            0 => to.ask(m).forward(tx).await,
                            1 => to.ask(m).try_forward(tx),
                            _ => to.ask(m).mailbox_timeout(self.cx.dur(7)).forward(tx).await,
                        };
                        self.back(res.map_err(|e| e.map_msg(|(m, tx)| (m.uid, tx))), uid);
                    }
                    None => {
                        let _ = to.tell(m).try_send();
                    }
                }
            }
        }
        d
    }
}

impl F {
    /// A message which couldn't be forwarded comes back with its reply handle, which still works.
    fn back(&self, res: Result<(), SendError<(u64, ReplySender<R0>), E>>, uid: u64) {
        let (code, (u, tx)) = match res {
            Ok(()) => return,
            Err(SendError::ActorNotRunning(b)) => (1, b),
            Err(SendError::MailboxFull(b)) => (2, b),
            Err(SendError::Timeout(Some(b))) => (3, b),
            Err(_) => {
                self.cx.fail(&["C14", "C02"], "forward-lost", format!("forwarding {uid} failed without its message"));
                return;
            }
        };
        self.cx.check(u == uid, &["C14", "C02"], "forward-other-message", || format!("forwarding {uid} gave back {u}"));
        tx.send(Err(E(70_000 + code)));
    }
}

impl Message<Dctx> for F {
    type Reply = ForwardedReply<L0, R0>;
    async fn handle(&mut self, m: Dctx, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.cx.ev(self.n, "hop", m.uid, 1);
        let l0 = L0 { uid: m.uid, out: m.out, ms: 0 };
        match m.how {
            0 => ctx.forward(&m.to, l0).await,
            1 => ctx.try_forward(&m.to, l0),
            // In a place where blocking is allowed
            _ => tokio::task::block_in_place(|| ctx.blocking_forward(&m.to, l0)),
        }
    }
}

async fn delegate(cx: Cx, mut r: Rng) {
    let w = world(&cx, &mut r).await;
    let n = w.refs.len();
    let mut tasks = vec![];
    let mut any_kept = false;
    for _ in 0..r.range(2, 12) {
        let uid = cx.uid();
        let out = if r.chance(30) { Out::Fail(r.below(100)) } else { Out::Ok };
        let late = r.below(20);
        // Built from the end: who handles the rest, and what's expected of it (None: anything)
        let end = r.below(9);
        let lucky = match out {
            Out::Fail(k) => Res::HandlerErr(E(k)),
            _ => Res::Reply(answer(uid)),
        };
        let code = |c: u64| Res::HandlerErr(E(70_000 + c));
        let arrive = |to: usize, how: u64, then: Vec<Res>, w: &World| -> Vec<Res> {
            if w.dead[to] {
                vec![code(1)]
            } else if w.full[to] && how == 1 {
                let mut v = then;
                v.push(code(2));
                v
            } else if w.full[to] && how == 2 {
                let mut v = then;
                v.push(code(3));
                v
            } else {
                then
            }
        };
        let mut below_full = false;
        let (mut way, mut want) = match end {
            0 => (Way::Early, vec![lucky.clone()]),
            1 => (Way::Task(r.below(10)), vec![lucky.clone()]),
            2 => (Way::Thread, vec![lucky.clone()]),
            3 => (Way::Drop, vec![Res::Stopped]),
            4 => {
                any_kept = true;
                (Way::Keep, vec![lucky.clone()])
            }
            5 => (Way::Panic, vec![Res::Stopped]),
            6 => (Way::TaskPanic(r.below(5)), vec![lucky.clone()]),
            _ => {
                let mut to = r.us(n);
                while w.full[to] && w.full.iter().any(|f| !f) {
                    to = r.us(n);
                }
                let how = r.below(3);
                below_full = w.full[to];
                (Way::Plain(how, w.refs[to].clone()), arrive(to, how, vec![lucky.clone()], &w))
            }
        };
        for _ in 0..r.below(4) {
            let mut to = r.us(n);
            while w.full[to] && below_full {
                to = r.us(n);
            }
            below_full = w.full[to];
            let how = r.below(3);
            want = arrive(to, how, want, &w);
            way = Way::On(how, w.refs[to].clone(), Box::new(way));
        }
        let mut first = r.us(n);
        while w.full[first] && below_full {
            first = r.us(n);
        }
        let a = w.refs[first].clone();
        if w.dead[first] {
            want = vec![Res::NotRunning(Some(uid))];
        }
        let ask = r.chance(80);
        let how = r.below(4);
        let cx2 = cx.clone();
        tasks.push(tokio::spawn(async move {
            let cx = cx2;
            cx.sleep(late).await;
            let _p = cx.pend(format!("delegated message {uid}"));
            cx.ev(99, "call", uid, ask as u64);
            let m = D { uid, out, way };
            if !ask {
                let _ = a.tell(m).send().await;
                return;
            }
            let conv = |res: Result<u64, SendError<D, E>>| match res {
                Ok(n) => Res::Reply(n),
                Err(SendError::ActorNotRunning(m)) => Res::NotRunning(Some(m.uid)),
                Err(SendError::MailboxFull(m)) => Res::Full(Some(m.uid)),
                Err(SendError::Timeout(Some(m))) => Res::TimeoutSpace(Some(m.uid)),
                Err(SendError::Timeout(None)) => Res::TimeoutReply,
                Err(SendError::ActorStopped) => Res::Stopped,
                Err(SendError::HandlerError(e)) => Res::HandlerErr(e),
            };
            let got = match how {
                0 => match a.ask(m).enqueue().await {
                    Ok(p) => conv(p.await),
                    Err(_) => Res::NotRunning(Some(uid)),
                },
                1 => conv(a.ask(m).reply_timeout(Duration::from_secs(600)).send().await),
                _ => conv(a.ask(m).send().await),
            };
            cx.evt(99, "ret", uid, got.code(), format!("{got:?}"));
            cx.stat("delegated_asks", 1);
            cx.check(want.contains(&got), &["C14", "C03"], "delegated-result", || format!("delegated message {uid} gave {got:?}, expected {want:?}"));
        }));
    }
    cx.sleep(200).await;
    w.gate.add_permits(10_000);
    cx.settle().await;
    cx.settle().await;
    if any_kept {
        // All actors end, then the kept handles are used
        let begin = std::time::Instant::now();
        while !cx.det() && tasks.iter().filter(|t| !t.is_finished()).count() > w.kept.lock().unwrap().len() {
            cx.settle().await;
            if begin.elapsed() > Duration::from_secs(60) {
                cx.fail(&["C14", "C03"], "delegated-hang", format!("still waiting: {:?}", cx.pending()));
                return;
            }
        }
        for a in &w.refs {
            a.kill();
        }
        for a in &w.refs {
            a.wait_for_shutdown().await;
        }
        cx.settle().await;
        let mut kept = std::mem::take(&mut *w.kept.lock().unwrap());
        r.shuffle(&mut kept);
        let threads = r.chance(30);
        for (uid, out, tx) in kept {
            cx.ev(99, "late reply", uid, 0);
            if threads {
                let _ = std::thread::spawn(move || tx.send(result(uid, out))).join();
            } else {
                tx.send(result(uid, out));
            }
        }
    }
    for t in tasks {
        let _p = cx.pend("asker");
        if t.await.is_err() {
            cx.fail(&["C14"], "asker-panicked", "a task asking panicked");
        }
    }
}
