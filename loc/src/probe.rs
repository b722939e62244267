//! The scripted actor every workload is made of, and the ways of sending it a message.
use std::{
    future::Future,
    ops::ControlFlow,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

use futures::FutureExt;
use kameo::prelude::*;
use tokio::sync::Semaphore;

use crate::core::*;

/// The payload of intended panics which aren't strings.
#[derive(Clone, Debug, PartialEq)]
pub struct VPanic(pub u64);

/// The error type of the probe's hooks and handlers.
#[derive(Clone, Debug, PartialEq)]
pub struct E(pub u64);

pub type StepFut = Pin<Box<dyn Future<Output = ()> + Send>>;

#[derive(Clone)]
pub enum Step {
    Yield(u64),
    Sleep(u64),
    Mark(u64),
    Gate(Arc<Semaphore>),
    /// Runs with the actor's own reference.
    Do(Arc<dyn Fn(ActorRef<P>) -> StepFut + Send + Sync>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    Ok,
    Fail(u64),
    PanicStr,
    PanicString(u64),
    PanicAny(u64),
}

pub fn do_panic(out: Out) {
    match out {
        Out::PanicStr => panic!("vp"),
        Out::PanicString(n) => panic!("vp {n}"),
        Out::PanicAny(n) => std::panic::panic_any(VPanic(n)),
        _ => {}
    }
}

/// What a panic error holds, as text.
pub fn out_text(out: Out) -> String {
    match out {
        Out::Ok => "ok".into(),
        Out::Fail(n) => format!("E({n})"),
        Out::PanicStr => "vp".into(),
        Out::PanicString(n) => format!("vp {n}"),
        Out::PanicAny(n) => format!("V({n})"),
    }
}

pub fn perr_text(err: &PanicError) -> String {
    if let Some(s) = err.with_str(|s| s.to_string()) {
        return s;
    }
    if let Some(e) = err.downcast::<E>() {
        return format!("E({})", e.0);
    }
    if let Some(n) = err.with_downcast_ref(|v: &VPanic| v.0) {
        return format!("V({n})");
    }
    if let Some(s) = err.with_downcast_ref(|e: &SendError<Op, E>| format!("send:{e:?}")) {
        return s;
    }
    "?".into()
}

pub fn reason_text(r: &ActorStopReason) -> String {
    match r {
        ActorStopReason::Normal => "normal".into(),
        ActorStopReason::Killed => "killed".into(),
        ActorStopReason::Panicked(e) => format!("panicked:{}", perr_text(e)),
        ActorStopReason::LinkDied { id, reason } => format!("link({},{})", id.sequence_id(), reason_text(reason)),
        #[allow(unreachable_patterns)]
        _ => "other".into(),
    }
}

/// The contents of a message are derived from its number, to notice any change.
pub fn payload(uid: u64) -> String {
    format!("p{:x}-{}", mix(uid, 77), uid % 7)
}

pub fn answer(uid: u64) -> u64 {
    mix(uid, 0xA115) >> 8
}

#[derive(Clone)]
pub struct Op {
    pub from: u64,
    pub uid: u64,
    pub pay: String,
    pub act: Arc<Vec<Step>>,
    pub out: Out,
}

impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Op({})", self.uid)
    }
}

impl Op {
    pub fn new(cx: &Cx, from: u64) -> Op {
        Op::with(cx, from, vec![], Out::Ok)
    }
    pub fn with(cx: &Cx, from: u64, act: Vec<Step>, out: Out) -> Op {
        let uid = cx.uid();
        Op { from, uid, pay: payload(uid), act: Arc::new(act), out }
    }
    pub fn intact(&self) -> bool {
        self.pay == payload(self.uid)
    }
}

#[derive(Clone)]
pub struct Hook {
    pub steps: Vec<Step>,
    pub out: Out,
}

impl Default for Hook {
    fn default() -> Self {
        Hook { steps: vec![], out: Out::Ok }
    }
}

#[derive(Clone, Debug)]
pub enum Dec {
    /// What the trait does by default.
    Default,
    Continue,
    Break(ActorStopReason),
    Err(u64),
    Panic,
}

/// What the trait itself does when its hooks aren't overridden.
pub struct Dft;
impl Actor for Dft {
    type Error = E;
}

fn weak_dft() -> WeakActorRef<Dft> {
    static REF: std::sync::OnceLock<WeakActorRef<Dft>> = std::sync::OnceLock::new();
    REF.get_or_init(|| PreparedActor::<Dft>::new(kameo::mailbox::unbounded()).actor_ref().downgrade()).clone()
}

#[derive(Clone)]
pub struct Plan {
    pub start: Hook,
    pub stop: Hook,
    pub on_panic: Arc<dyn Fn(u64) -> Dec + Send + Sync>,
    pub on_link: Arc<dyn Fn(&ActorStopReason) -> Dec + Send + Sync>,
    pub panic_steps: Vec<Step>,
    pub link_steps: Vec<Step>,
}

impl Default for Plan {
    fn default() -> Self {
        Plan {
            start: Hook::default(),
            stop: Hook::default(),
            on_panic: Arc::new(|_| Dec::Default),
            on_link: Arc::new(|_| Dec::Default),
            panic_steps: vec![],
            link_steps: vec![],
        }
    }
}

impl Plan {
    pub fn resilient() -> Self {
        Plan { on_panic: Arc::new(|_| Dec::Continue), on_link: Arc::new(|_| Dec::Continue), ..Plan::default() }
    }
}

pub struct P {
    pub n: u32,
    pub cx: Cx,
    pub plan: Plan,
    pub busy: Arc<AtomicBool>,
    /// State which must survive recovered panics: number of messages whose handler was entered.
    pub entered: u64,
    pub sum: u64,
    pub panics: u64,
    pub drops: Option<Arc<AtomicU64>>,
}

impl Drop for P {
    fn drop(&mut self) {
        self.cx.ev(self.n, "dropped", self.entered, 0);
        if let Some(d) = &self.drops {
            d.fetch_add(1, Ordering::SeqCst);
        }
    }
}

impl P {
    pub fn new(cx: &Cx, n: u32, plan: Plan) -> P {
        P { n, cx: cx.clone(), plan, busy: Arc::default(), entered: 0, sum: 0, panics: 0, drops: None }
    }
}

/// Notices overlapping hooks and handlers, and handlers which never finish.
pub struct Busy {
    cx: Cx,
    n: u32,
    flag: Arc<AtomicBool>,
    uid: u64,
    done: bool,
}

impl Busy {
    pub fn enter(p: &P, kind: &'static str, uid: u64, from: u64, text: String) -> Busy {
        p.cx.evt(p.n, kind, uid, from, text);
        if p.busy.swap(true, Ordering::SeqCst) {
            p.cx.fail(&["C01", "C08"], "overlapping-handlers", format!("actor {} entered {kind} {uid} while another was running", p.n));
        }
        Busy { cx: p.cx.clone(), n: p.n, flag: p.busy.clone(), uid, done: false }
    }
    pub fn finish(mut self, kind: &'static str, b: u64) {
        self.done = true;
        self.cx.ev(self.n, kind, self.uid, b);
    }
}

impl Drop for Busy {
    fn drop(&mut self) {
        if !self.done {
            let kind = if std::thread::panicking() { "unwound" } else { "cancelled" };
            self.cx.ev(self.n, kind, self.uid, 0);
        }
        self.flag.store(false, Ordering::SeqCst);
    }
}

pub async fn run_steps(cx: &Cx, n: u32, uid: u64, me: Option<ActorRef<P>>, steps: &[Step]) {
    for s in steps {
        match s {
            Step::Yield(k) => {
                for _ in 0..*k {
                    tokio::task::yield_now().await;
                    cx.ev(n, "step", uid, 0);
                }
            }
            Step::Sleep(ms) => {
                cx.sleep(*ms).await;
                cx.ev(n, "step", uid, 1);
            }
            Step::Mark(k) => {
                cx.ev(n, "mark", uid, *k);
            }
            Step::Gate(sem) => {
                cx.ev(n, "gated", uid, 0);
                if let Ok(p) = sem.acquire().await {
                    p.forget();
                }
                cx.ev(n, "step", uid, 2);
            }
            Step::Do(f) => match &me {
                Some(me) => f(me.clone()).await,
                None => {}
            },
        }
    }
}

impl Actor for P {
    type Error = E;

    fn name() -> &'static str {
        "P"
    }

    async fn on_start(&mut self, me: ActorRef<Self>) -> Result<(), E> {
        let g = Busy::enter(self, "start", 0, 0, String::new());
        let hook = self.plan.start.clone();
        run_steps(&self.cx, self.n, 0, Some(me), &hook.steps).await;
        if !matches!(hook.out, Out::Ok | Out::Fail(_)) {
            self.cx.ev(self.n, "start_out", 2, 0);
        }
        do_panic(hook.out);
        let r = match hook.out {
            Out::Fail(n) => Err(E(n)),
            _ => Ok(()),
        };
        g.finish("start_end", r.is_err() as u64);
        r
    }

    async fn on_panic(&mut self, me: WeakActorRef<Self>, err: PanicError) -> Result<ControlFlow<ActorStopReason>, E> {
        let k = self.panics;
        self.panics += 1;
        let g = Busy::enter(self, "panic", k, 0, perr_text(&err));
        run_steps(&self.cx, self.n, k, me.upgrade(), &self.plan.panic_steps.clone()).await;
        drop(me);
        let dec = (self.plan.on_panic)(k);
        match dec {
            Dec::Panic => do_panic(Out::PanicString(900 + k)),
            _ => {}
        }
        let r = match dec {
            Dec::Default => Dft.on_panic(weak_dft(), err).await,
            Dec::Continue => Ok(ControlFlow::Continue(())),
            Dec::Break(r) => Ok(ControlFlow::Break(r)),
            Dec::Err(n) => Err(E(n)),
            Dec::Panic => unreachable!(),
        };
        g.finish("panic_end", matches!(r, Ok(ControlFlow::Continue(()))) as u64);
        r
    }

    async fn on_link_died(&mut self, _me: WeakActorRef<Self>, id: ActorID, reason: ActorStopReason) -> Result<ControlFlow<ActorStopReason>, E> {
        let g = Busy::enter(self, "link", id.sequence_id(), 0, reason_text(&reason));
        run_steps(&self.cx, self.n, 0, None, &self.plan.link_steps.clone()).await;
        let dec = (self.plan.on_link)(&reason);
        if matches!(dec, Dec::Panic) {
            do_panic(Out::PanicString(800));
        }
        let r = match dec {
            Dec::Default => Dft.on_link_died(weak_dft(), id, reason).await,
            Dec::Continue => Ok(ControlFlow::Continue(())),
            Dec::Break(r) => Ok(ControlFlow::Break(r)),
            Dec::Err(n) => Err(E(n)),
            Dec::Panic => unreachable!(),
        };
        g.finish("link_end", matches!(r, Ok(ControlFlow::Continue(()))) as u64);
        r
    }

    async fn on_stop(&mut self, _me: WeakActorRef<Self>, reason: ActorStopReason) -> Result<(), E> {
        let g = Busy::enter(self, "stop", 0, 0, reason_text(&reason));
        let hook = self.plan.stop.clone();
        run_steps(&self.cx, self.n, 0, None, &hook.steps).await;
        if !matches!(hook.out, Out::Ok | Out::Fail(_)) {
            self.cx.ev(self.n, "stop_out", 2, 0);
        }
        do_panic(hook.out);
        let r = match hook.out {
            Out::Fail(n) => Err(E(n)),
            _ => Ok(()),
        };
        g.finish("stop_end", r.is_err() as u64);
        r
    }
}

pub async fn handle_op(p: &mut P, op: Op, me: ActorRef<P>) -> Result<u64, E> {
    let g = Busy::enter(p, "h", op.uid, op.from, String::new());
    if !op.intact() {
        p.cx.fail(&["C01"], "message-changed", format!("message {} arrived as {:?}", op.uid, op.pay));
    }
    if me.id() != me.downgrade().id() {
        p.cx.fail(&["C22"], "weak-id", "weak reference has another id");
    }
    p.entered += 1;
    p.sum = p.sum.wrapping_add(op.uid);
    let act = op.act.clone();
    run_steps(&p.cx, p.n, op.uid, Some(me), &act).await;
    if !matches!(op.out, Out::Ok | Out::Fail(_)) {
        p.cx.ev(p.n, "h_panics", op.uid, 0);
    }
    do_panic(op.out);
    let r = match op.out {
        Out::Fail(n) => Err(E(n)),
        _ => Ok(answer(op.uid)),
    };
    g.finish("h_end", r.is_err() as u64);
    r
}

impl Message<Op> for P {
    type Reply = Result<u64, E>;
    async fn handle(&mut self, op: Op, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let me = ctx.actor_ref();
        handle_op(self, op, me).await
    }
}

/// A message whose reply can't be an error.
#[derive(Clone, Debug)]
pub struct Plain(pub Op);
impl Message<Plain> for P {
    type Reply = String;
    async fn handle(&mut self, m: Plain, ctx: &mut Context<Self, Self::Reply>) -> String {
        let me = ctx.actor_ref();
        let r = handle_op(self, m.0, me).await;
        format!("{}", r.unwrap_or(0))
    }
}

/// The number of messages entered and the sum of their numbers.
pub struct Get;
impl Message<Get> for P {
    type Reply = (u64, u64);
    async fn handle(&mut self, _: Get, _: &mut Context<Self, Self::Reply>) -> (u64, u64) {
        (self.entered, self.sum)
    }
}

pub fn mbox(cap: u64) -> (MailboxSender<P>, MailboxReceiver<P>) {
    if cap == 0 {
        kameo::mailbox::unbounded()
    } else {
        kameo::mailbox::bounded(cap as usize)
    }
}

/// A capacity, 0 meaning unbounded.
pub fn any_cap(r: &mut Rng) -> u64 {
    *r.pick(&[0, 1, 1, 2, 3, 4, 8, 64])
}

/// Ways of sending an `Op`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum V {
    Tell,
    TellAwait,
    TellTry,
    TellMt(u64),
    Rec,
    RecAwait,
    RecTry,
    RecMt(u64),
    Ask,
    AskAwait,
    AskTry,
    AskMt(u64),
    AskRt(u64),
    AskBoth(u64, u64),
    AskTryRt(u64),
    Enq,
    EnqMt(u64),
    TryEnq,
    EnqRt(u64),
}

impl V {
    pub fn is_ask(self) -> bool {
        !matches!(self, V::Tell | V::TellAwait | V::TellTry | V::TellMt(_) | V::Rec | V::RecAwait | V::RecTry | V::RecMt(_))
    }
    pub fn is_try(self) -> bool {
        matches!(self, V::TellTry | V::RecTry | V::AskTry | V::AskTryRt(_) | V::TryEnq)
    }
    /// Gives the message back on failure.
    pub fn returns_msg(self) -> bool {
        !matches!(self, V::Enq | V::EnqMt(_) | V::TryEnq | V::EnqRt(_))
    }
    pub fn mailbox_timeout(self) -> Option<u64> {
        match self {
            V::TellMt(n) | V::RecMt(n) | V::AskMt(n) | V::AskBoth(n, _) | V::EnqMt(n) => Some(n),
            _ => None,
        }
    }
    pub fn reply_timeout(self) -> Option<u64> {
        match self {
            V::AskRt(n) | V::AskBoth(_, n) | V::AskTryRt(n) | V::EnqRt(n) => Some(n),
            _ => None,
        }
    }
    pub fn any(r: &mut Rng) -> V {
        let t = r.range(1, 40);
        let u = r.range(1, 60);
        *r.pick(&[
            V::Tell, V::Tell, V::TellAwait, V::TellTry, V::TellMt(t), V::Rec, V::RecAwait, V::RecTry, V::RecMt(t), V::Ask, V::Ask,
            V::AskAwait, V::AskTry, V::AskMt(t), V::AskRt(u), V::AskBoth(t, u), V::AskTryRt(u), V::Enq, V::EnqMt(t), V::TryEnq, V::EnqRt(u),
        ])
    }
    pub fn any_tell(r: &mut Rng) -> V {
        *r.pick(&[V::Tell, V::TellAwait, V::TellTry, V::Rec, V::RecAwait, V::RecTry])
    }
    /// Without timeouts.
    pub fn any_plain(r: &mut Rng) -> V {
        *r.pick(&[
            V::Tell, V::TellAwait, V::TellTry, V::Rec, V::RecAwait, V::RecTry, V::Ask, V::AskAwait, V::AskTry, V::Enq, V::TryEnq,
        ])
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    /// A tell was accepted.
    Sent,
    Reply(u64),
    HandlerErr(E),
    /// Carries the number of the message given back, if one was.
    NotRunning(Option<u64>),
    Full(Option<u64>),
    TimeoutSpace(Option<u64>),
    TimeoutReply,
    Stopped,
    /// The message given back had other contents.
    Mangled,
}

impl Res {
    pub fn code(&self) -> u64 {
        match self {
            Res::Sent => 0,
            Res::Reply(_) => 1,
            Res::HandlerErr(_) => 2,
            Res::NotRunning(_) => 3,
            Res::Full(_) => 4,
            Res::TimeoutSpace(_) => 5,
            Res::TimeoutReply => 6,
            Res::Stopped => 7,
            Res::Mangled => 8,
        }
    }
    /// The message was refused, and must never be handled.
    pub fn refused(&self) -> bool {
        matches!(self, Res::NotRunning(_) | Res::Full(_) | Res::TimeoutSpace(_))
    }
}

pub fn tell_res(r: Result<(), SendError<Op>>) -> Res {
    match r {
        Ok(()) => Res::Sent,
        Err(e) => err_res(e.map_err(|_| E(0))),
    }
}

fn err_res(e: SendError<Op, E>) -> Res {
    let back = |m: Op| if m.intact() { Ok(Some(m.uid)) } else { Err(()) };
    let f = match e {
        SendError::ActorNotRunning(m) => back(m).map(Res::NotRunning),
        SendError::MailboxFull(m) => back(m).map(Res::Full),
        SendError::Timeout(Some(m)) => back(m).map(Res::TimeoutSpace),
        SendError::Timeout(None) => Ok(Res::TimeoutReply),
        SendError::ActorStopped => Ok(Res::Stopped),
        SendError::HandlerError(e) => Ok(Res::HandlerErr(e)),
    };
    f.unwrap_or(Res::Mangled)
}

pub fn ask_res(r: Result<u64, SendError<Op, E>>) -> Res {
    match r {
        Ok(n) => Res::Reply(n),
        Err(e) => err_res(e),
    }
}

pub fn enq_err(e: SendError) -> Res {
    match e {
        SendError::ActorNotRunning(()) => Res::NotRunning(None),
        SendError::MailboxFull(()) => Res::Full(None),
        SendError::Timeout(Some(())) => Res::TimeoutSpace(None),
        SendError::Timeout(None) => Res::TimeoutSpace(None),
        SendError::ActorStopped => Res::Stopped,
        SendError::HandlerError(_) => Res::Mangled,
    }
}

pub type PendFut<'a> = Pin<Box<dyn Future<Output = Res> + Send + 'a>>;

/// The first phase of sending: until the message is accepted, and for a plain ask until it's answered.
pub async fn send<'a>(cx: &Cx, v: V, a: &'a ActorRef<P>, op: Op) -> Result<Res, PendFut<'a>> {
    let d = |n: u64| -> Duration { cx.dur(n) };
    Ok(match v {
        V::Tell => tell_res(a.tell(op).send().await),
        V::TellAwait => tell_res(a.tell(op).await),
        V::TellTry => tell_res(a.tell(op).try_send()),
        V::TellMt(n) => tell_res(a.tell(op).mailbox_timeout(d(n)).send().await),
        V::Rec => tell_res(a.clone().recipient::<Op>().tell(op).send().await),
        V::RecAwait => tell_res(a.clone().recipient::<Op>().tell(op).await),
        V::RecTry => tell_res(a.clone().recipient::<Op>().tell(op).try_send()),
        V::RecMt(n) => tell_res(a.clone().recipient::<Op>().tell(op).mailbox_timeout(d(n)).send().await),
        V::Ask => ask_res(a.ask(op).send().await),
        V::AskAwait => ask_res(a.ask(op).await),
        V::AskTry => ask_res(a.ask(op).try_send().await),
        V::AskMt(n) => ask_res(a.ask(op).mailbox_timeout(d(n)).send().await),
        V::AskRt(n) => ask_res(a.ask(op).reply_timeout(d(n)).send().await),
        V::AskBoth(n, m) => ask_res(a.ask(op).mailbox_timeout(d(n)).reply_timeout(d(m)).await),
        V::AskTryRt(n) => ask_res(a.ask(op).reply_timeout(d(n)).try_send().await),
        V::Enq => match a.ask(op).enqueue().await {
            Ok(p) => return Err(p.map(ask_res).boxed()),
            Err(e) => enq_err(e),
        },
        V::EnqMt(n) => match a.ask(op).mailbox_timeout(d(n)).enqueue().await {
            Ok(p) => return Err(p.map(ask_res).boxed()),
            Err(e) => enq_err(e),
        },
        V::TryEnq => match a.ask(op).try_enqueue() {
            Ok(p) => return Err(p.map(ask_res).boxed()),
            Err(e) => enq_err(e),
        },
        V::EnqRt(n) => match a.ask(op).reply_timeout(d(n)).enqueue().await {
            Ok(p) => return Err(p.map(ask_res).boxed()),
            Err(e) => enq_err(e),
        },
    })
}

/// Sends and waits for the outcome.
pub async fn send_all(cx: &Cx, v: V, a: &ActorRef<P>, op: Op) -> Res {
    match send(cx, v, a, op).await {
        Ok(r) => r,
        Err(p) => p.await,
    }
}

/// A slot filled by another task.
pub type Slot<T> = Arc<Mutex<Option<T>>>;
pub fn slot<T>() -> Slot<T> {
    Arc::new(Mutex::new(None))
}

pub fn do_step<F>(f: F) -> Step
where
    F: Fn(ActorRef<P>) -> StepFut + Send + Sync + 'static,
{
    Step::Do(Arc::new(f))
}

/// Some random work for a handler.
pub fn any_steps(r: &mut Rng) -> Vec<Step> {
    let mut v = vec![];
    for _ in 0..r.below(3) {
        v.push(match r.below(3) {
            0 => Step::Yield(r.range(1, 3)),
            1 => Step::Sleep(r.range(1, 8)),
            _ => Step::Mark(r.below(100)),
        });
    }
    v
}

pub fn any_panic(r: &mut Rng) -> Out {
    match r.below(3) {
        0 => Out::PanicStr,
        1 => Out::PanicString(r.below(1000)),
        _ => Out::PanicAny(r.below(1000)),
    }
}

/// Ways of getting an actor going. The handle gives the final state and reason.
pub fn spawn_prepared(cx: &Cx, prepared: PreparedActor<P>, p: P) -> tokio::task::JoinHandle<()> {
    let cx = cx.clone();
    let n = p.n;
    let h = prepared.spawn(p);
    tokio::spawn(async move {
        match h.await {
            Ok((p, reason)) => {
                cx.evt(n, "ended", p.entered, p.sum, reason_text(&reason));
                std::mem::drop(p);
            }
            Err(e) => {
                cx.evt(n, "task_failed", 0, 0, format!("{e}"));
                cx.fail(&["C08", "C10", "C07", "C06", "C05"], "actor-task-failed", format!("the actor's task failed: {e}"));
            }
        }
    })
}
