//! Derived actors and replies run the same random programs as hand-written ones.
use std::{fmt::Debug, marker::PhantomData, time::Duration};

use futures::FutureExt;
use kameo::{
    actor::{PreparedActor, ActorRef},
    error::{Infallible, SendError},
    prelude::*,
    reply::{DelegatedReply, ForwardedReply, ReplyError},
};

use crate::{core::*, det, Family};

pub fn families() -> Vec<Family> {
    vec![
        det("derived-actors", &["C30"], 40, |cx, r| actors(cx, r).boxed()),
        det("derived-replies", &["C30"], 40, |cx, r| replies(cx, r).boxed()),
    ]
}

// ---- actors

#[derive(Clone, Debug, Default, PartialEq)]
pub struct St {
    handled: Vec<u64>,
}

pub trait Subject: Actor<Error = Infallible> + Message<Do, Reply = Result<u64, String>> {
    fn make() -> Self;
    fn st(&self) -> St;
    const NAME: &'static str;
}

#[derive(Clone, Debug)]
pub enum Do {
    Ok(u64),
    Fail(u64),
    Panic(u64),
    Sleep(u64),
    StopSelf,
}

macro_rules! subject {
    ([$($g:tt)*] $t:ty, $name:expr, $make:expr) => {
        impl<$($g)*> Subject for $t {
            fn make() -> Self {
                $make
            }
            fn st(&self) -> St {
                self.st.clone()
            }
            const NAME: &'static str = $name;
        }
        impl<$($g)*> Message<Do> for $t {
            type Reply = Result<u64, String>;
            async fn handle(&mut self, m: Do, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
                match m {
                    Do::Ok(n) => {
                        self.st.handled.push(n);
                        Ok(n)
                    }
                    Do::Fail(n) => {
                        self.st.handled.push(n);
                        Err(format!("failed {n}"))
                    }
                    Do::Panic(n) => {
                        self.st.handled.push(n);
                        panic!("vp {n}")
                    }
                    Do::Sleep(n) => {
                        tokio::time::sleep(Duration::from_millis(n)).await;
                        self.st.handled.push(n);
                        Ok(n)
                    }
                    Do::StopSelf => {
                        let _ = ctx.actor_ref().stop_gracefully().await;
                        Ok(0)
                    }
                }
            }
        }
    };
}

#[derive(Actor, Default)]
pub struct Derived {
    st: St,
}
subject!([] Derived, "Derived", Self::default());

#[derive(Actor, Default)]
#[actor(name = "a name, of its own: ☃")]
pub struct Named {
    st: St,
}
subject!([] Named, "a name, of its own: ☃", Self::default());

#[derive(Actor)]
pub struct DerivedGeneric<T: Default + Send, U>
where
    T: 'static,
    U: Send + 'static,
{
    st: St,
    _t: T,
    _u: PhantomData<U>,
}
subject!([T: Default + Send + 'static, U: Send + 'static] DerivedGeneric<T, U>, "DerivedGeneric", Self { st: St::default(), _t: T::default(), _u: PhantomData });

/// Kept private, and a tuple inside.
#[derive(Actor)]
#[actor(name = "")]
struct DerivedTuple<const N: usize> {
    st: St,
}
subject!([const N: usize] DerivedTuple<N>, "", Self { st: St::default() });

#[derive(Actor)]
enum DerivedEnum {
    Only(St),
}
impl DerivedEnum {
    fn inner(&mut self) -> &mut St {
        let DerivedEnum::Only(st) = self;
        st
    }
}
impl Subject for DerivedEnum {
    fn make() -> Self {
        DerivedEnum::Only(St::default())
    }
    fn st(&self) -> St {
        let DerivedEnum::Only(st) = self;
        st.clone()
    }
    const NAME: &'static str = "DerivedEnum";
}
impl Message<Do> for DerivedEnum {
    type Reply = Result<u64, String>;
    async fn handle(&mut self, m: Do, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        let mut d = Derived { st: std::mem::take(self.inner()) };
        match m {
            Do::StopSelf => {
                let _ = ctx.actor_ref().stop_gracefully().await;
                *self.inner() = d.st;
                Ok(0)
            }
            Do::Panic(n) => {
                d.st.handled.push(n);
                *self.inner() = d.st;
                panic!("vp {n}")
            }
            Do::Sleep(n) => {
                *self.inner() = d.st;
                tokio::time::sleep(Duration::from_millis(n)).await;
                self.inner().handled.push(n);
                Ok(n)
            }
            Do::Ok(n) => {
                d.st.handled.push(n);
                *self.inner() = d.st;
                Ok(n)
            }
            Do::Fail(n) => {
                d.st.handled.push(n);
                *self.inner() = d.st;
                Err(format!("failed {n}"))
            }
        }
    }
}

/// What the derived ones stand for.
#[derive(Default)]
pub struct Written {
    st: St,
}
impl Actor for Written {
    type Error = Infallible;
    fn name() -> &'static str {
        "Written"
    }
}
subject!([] Written, "Written", Self::default());

fn reason(r: &ActorStopReason, ids: &[ActorID]) -> String {
    match r {
        ActorStopReason::Normal => "normal".into(),
        ActorStopReason::Killed => "killed".into(),
        ActorStopReason::Panicked(e) => {
            format!("panicked {:?}", e.with_str(|s| s.to_string()).or_else(|| e.with_downcast_ref(|s: &String| s.clone())))
        }
        ActorStopReason::LinkDied { id, reason: inner } => format!("link {:?} died: {}", ids.iter().position(|i| i == id), reason(inner, ids)),
    }
}

/// Runs the program the numbers give, and tells everything which could be observed.
async fn program<A: Subject>(mut r: Rng) -> Vec<String> {
    let mut out = vec![];
    let prepared = if r.chance(50) { PreparedActor::<A>::new(mailbox::bounded(r.range(2, 5) as usize)) } else { PreparedActor::<A>::new(mailbox::unbounded()) };
    let a: ActorRef<A> = prepared.actor_ref().clone();
    let others: Vec<ActorRef<Written>> = (0..3).map(|_| kameo::spawn(Written::default())).collect();
    let ids: Vec<ActorID> = others.iter().map(|o| o.id()).chain([a.id()]).collect();
    let task = prepared.spawn(A::make());
    for k in 0..r.range(1, 14) {
        let o = r.pick(&others).clone();
        let n = r.below(100);
        let did = match r.below(14) {
            0..=2 => format!("{:?}", a.tell(Do::Ok(n)).try_send().is_ok()),
            3 | 4 => format!("{:?}", a.ask(Do::Ok(n)).await.map_err(short)),
            5 => format!("{:?}", a.ask(Do::Fail(n)).await.map_err(short)),
            6 => {
                if r.chance(30) {
                    format!("{:?}", a.tell(Do::Fail(n)).await.is_ok())
                } else {
                    "-".into()
                }
            }
            7 => {
                if r.chance(30) {
                    format!("{:?}", a.tell(Do::Panic(n)).await.is_ok())
                } else {
                    "-".into()
                }
            }
            8 => format!("{:?}", a.tell(Do::Sleep(n)).await.is_ok()),
            9 => {
                // A link with one which has ended is not told
                if o.is_alive() && a.is_alive() {
                    a.link(&o).await;
                }
                "linked".into()
            }
            10 => {
                a.unlink(&o).await;
                "unlinked".into()
            }
            11 => {
                match r.below(3) {
                    0 => {
                        let _ = o.tell(Do::Panic(n)).await;
                    }
                    1 => o.kill(),
                    _ => {
                        let _ = o.stop_gracefully().await;
                    }
                }
                o.wait_for_shutdown().await;
                "other ended".into()
            }
            12 => {
                if r.chance(20) {
                    a.kill();
                    "killed".into()
                } else if r.chance(30) {
                    format!("{:?}", a.ask(Do::StopSelf).await.map_err(short))
                } else {
                    "-".into()
                }
            }
            _ => {
                tokio::time::sleep(Duration::from_millis(n)).await;
                format!("alive {}", a.is_alive())
            }
        };
        out.push(format!("{k} {did}"));
    }
    if r.chance(60) {
        out.push(format!("stop {}", a.stop_gracefully().await.is_ok()));
    }
    let counts = (a.strong_count(), a.weak_count());
    out.push(format!("counts {counts:?}"));
    drop(a);
    // The links tell of it last
    let (actor, why) = task.await.expect("the actor's task");
    out.push(format!("{:?} {}", actor.st(), reason(&why, &ids)));
    tokio::time::sleep(Duration::from_secs(1)).await;
    for o in &others {
        out.push(format!("other alive {}", o.is_alive()));
        if let Some(res) = o.is_alive().then_some(()) {
            let _ = res;
            out.push(format!("{:?}", o.ask(Do::Ok(1)).await.map_err(short)));
        }
    }
    out
}

fn short<M, E: Debug>(e: SendError<M, E>) -> String {
    match e {
        SendError::HandlerError(e) => format!("{e:?}"),
        SendError::ActorNotRunning(_) => "not running".into(),
        SendError::ActorStopped => "stopped".into(),
        SendError::MailboxFull(_) => "full".into(),
        SendError::Timeout(_) => "timeout".into(),
    }
}

async fn compare<A: Subject>(cx: &Cx, r: &Rng) {
    let expected = program::<Written>(r.clone()).await;
    let got = program::<A>(r.clone()).await;
    for (i, line) in got.iter().enumerate() {
        cx.evt(0, "step", i as u64, (expected.get(i) == Some(line)) as u64, line.clone());
    }
    cx.stat("steps_compared", got.len() as u64);
    cx.check(got == expected, &["C30"], "derived-actor-differs", || {
        let i = got.iter().zip(&expected).position(|(a, b)| a != b).unwrap_or(got.len().min(expected.len()));
        format!("{}: {:?}, the hand-written one: {:?}", A::NAME, got.get(i), expected.get(i))
    });
    cx.check(A::name() == A::NAME, &["C30"], "name", || format!("{:?}, not {:?}", A::name(), A::NAME));
}

async fn actors(cx: Cx, mut r: Rng) {
    let prog = r.fork();
    match r.below(6) {
        0 | 1 => compare::<Derived>(&cx, &prog).await,
        2 => compare::<Named>(&cx, &prog).await,
        3 => compare::<DerivedGeneric<u8, String>>(&cx, &prog).await,
        4 => compare::<DerivedTuple<3>>(&cx, &prog).await,
        _ => compare::<DerivedEnum>(&cx, &prog).await,
    }
}

// ---- replies

#[derive(Reply, Clone, Debug, PartialEq)]
pub struct RUnit;
#[derive(Reply, Clone, Debug, PartialEq)]
pub struct RTuple(u64, String);
#[derive(Reply, Clone, Debug, PartialEq)]
pub enum REnum {
    A,
    Err(u64),
    C { x: Option<Box<REnum>> },
}
#[derive(Reply, Clone, Debug, PartialEq)]
pub struct RGeneric<T: Send, const N: usize>
where
    T: 'static,
{
    items: [T; N],
}
/// Looks like a failure, but is not one.
#[derive(Reply, Clone, Debug, PartialEq)]
pub struct RResult(Result<u64, String>);

/// Written by hand.
#[derive(Clone, Debug, PartialEq)]
pub struct RWritten(u64);
impl Reply for RWritten {
    type Ok = Self;
    type Error = Infallible;
    type Value = Self;
    fn to_result(self) -> Result<Self, Infallible> {
        Ok(self)
    }
    fn into_any_err(self) -> Option<Box<dyn ReplyError>> {
        None
    }
    fn into_value(self) -> Self {
        self
    }
}

#[derive(Actor)]
pub struct Echo<R: Reply> {
    next: Option<ActorRef<Echo<R>>>,
    handled: u64,
}

#[derive(Clone)]
pub struct Say<R>(R, u8);

impl<R> Message<Say<R>> for Echo<R>
where
    R: Reply<Ok = R, Error = Infallible, Value = R>,
{
    type Reply = R;
    async fn handle(&mut self, m: Say<R>, _: &mut Context<Self, R>) -> R {
        self.handled += 1;
        m.0
    }
}

pub struct Later<R>(R);
impl<R> Message<Later<R>> for Echo<R>
where
    R: Reply<Ok = R, Error = Infallible, Value = R>,
{
    type Reply = DelegatedReply<R>;
    async fn handle(&mut self, m: Later<R>, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.handled += 1;
        let (delegated, sender) = ctx.reply_sender();
        if let Some(s) = sender {
            tokio::spawn(async move {
                tokio::task::yield_now().await;
                s.send(m.0)
            });
        }
        delegated
    }
}

pub struct Pass<R>(R);
impl<R> Message<Pass<R>> for Echo<R>
where
    R: Reply<Ok = R, Error = Infallible, Value = R> + Clone + Sync,
{
    type Reply = ForwardedReply<Say<R>, R>;
    async fn handle(&mut self, m: Pass<R>, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.handled += 1;
        let next = self.next.clone().expect("another");
        ctx.forward(&next, Say(m.0, 0)).await
    }
}

pub struct Maybe<R>(R, bool);
impl<R> Message<Maybe<R>> for Echo<R>
where
    R: Reply<Ok = R, Error = Infallible, Value = R>,
{
    type Reply = Result<R, u64>;
    async fn handle(&mut self, m: Maybe<R>, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.handled += 1;
        if m.1 {
            Ok(m.0)
        } else {
            Err(7)
        }
    }
}

pub struct Count;
impl<R: Reply> Message<Count> for Echo<R> {
    type Reply = u64;
    async fn handle(&mut self, _: Count, _: &mut Context<Self, u64>) -> u64 {
        self.handled
    }
}

async fn one_reply<R>(cx: &Cx, r: &mut Rng, v: R)
where
    R: Reply<Ok = R, Error = Infallible, Value = R> + Clone + Debug + PartialEq + Sync,
{
    let what = std::any::type_name::<R>().rsplit("::").next().unwrap_or("").to_string();
    cx.check(v.clone().to_result().is_ok_and(|w| w == v), &["C30"], "reply-to-result", || what.clone());
    cx.check(v.clone().into_any_err().is_none(), &["C30"], "reply-any-err", || what.clone());
    cx.check(v.clone().into_value() == v, &["C30"], "reply-value", || what.clone());
    let boxed: Box<dyn std::any::Any> = Box::new(v.clone());
    cx.check(R::downcast_ok(boxed) == v, &["C30"], "reply-downcast", || what.clone());
    let second = kameo::spawn(Echo { next: None, handled: 0 });
    let a = kameo::spawn(Echo { next: Some(second.clone()), handled: 0 });
    let (mut n, mut m) = (0, 0);
    for _ in 0..r.range(1, 8) {
        let (kind, got) = match r.below(7) {
            0 => ("ask", a.ask(Say(v.clone(), 0)).await.map_err(short)),
            1 => ("delegated", a.ask(Later(v.clone())).await.map_err(short)),
            2 => {
                m += 1;
                ("forwarded", a.ask(Pass(v.clone())).await.map_err(short))
            }
            3 => ("result", a.ask(Maybe(v.clone(), true)).await.map_err(short)),
            4 => {
                let e = a.ask(Maybe(v.clone(), false)).await;
                cx.check(matches!(&e, Err(SendError::HandlerError(7))), &["C30"], "reply-error", || what.clone());
                ("error", Ok(v.clone()))
            }
            // Not a failure for nobody awaits it
            5 => ("tell", a.tell(Say(v.clone(), 0)).await.map(|_| v.clone()).map_err(short)),
            _ => ("tell-delegated", a.tell(Later(v.clone())).await.map(|_| v.clone()).map_err(short)),
        };
        n += 1;
        cx.evt(0, kind, n, got.is_ok() as u64, what.clone());
        cx.stat("replies", 1);
        cx.check(got.as_ref().is_ok_and(|w| *w == v), &["C30"], "derived-reply", || format!("{kind} of {v:?} gave {got:?}"));
    }
    let got = (a.ask(Count).await, second.ask(Count).await);
    cx.check(matches!(got, (Ok(x), Ok(y)) if x == n && y == m), &["C30"], "derived-reply-actor", || format!("{what}: {got:?}, {n} and {m} were sent"));
}

async fn replies(cx: Cx, mut r: Rng) {
    for _ in 0..r.range(1, 3) {
        let n = r.below(1000);
        match r.below(8) {
            0 => one_reply(&cx, &mut r, RUnit).await,
            1 => one_reply(&cx, &mut r, RTuple(n, format!("t{n}"))).await,
            2 => {
                let v = match n % 3 {
                    0 => REnum::A,
                    1 => REnum::Err(n),
                    _ => REnum::C { x: Some(Box::new(REnum::A)) },
                };
                one_reply(&cx, &mut r, v).await
            }
            3 => one_reply(&cx, &mut r, RGeneric { items: [n, n + 1] }).await,
            4 => one_reply(&cx, &mut r, RGeneric::<String, 0> { items: [] }).await,
            5 => one_reply(&cx, &mut r, RResult(if n % 2 == 0 { Ok(n) } else { Err("inner".into()) })).await,
            6 => one_reply(&cx, &mut r, RGeneric { items: [RResult(Err("x".into()))] }).await,
            _ => one_reply(&cx, &mut r, RWritten(n)).await,
        }
    }
}
