//! Every form of an annotated method. Each message is sent with random arguments in a random way; a twin of the actor's
//! state has the method called on it directly, with the same arguments. Reply and state must be the same.
use std::{
    ops::ControlFlow,
    collections::{BTreeMap, BTreeSet, HashMap, VecDeque},
    fmt::Debug,
    marker::PhantomData,
    num::NonZeroU8,
    sync::{Arc, Mutex},
    time::Duration,
};

use futures::{future::BoxFuture, FutureExt};
use kameo::{
    error::{Infallible, PanicError, SendError},
    messages,
    prelude::*,
};

use crate::{core::*, det, mt, Family};

pub fn families() -> Vec<Family> {
    vec![
        det("plain-forms", &["C30"], 30, |cx, r| plain(cx, r).boxed()),
        det("generic-forms", &["C30"], 30, |cx, r| generic(cx, r).boxed()),
        det("failing-forms", &["C30"], 20, |cx, r| failing(cx, r).boxed()),
        det("concurrent-forms", &["C30"], 10, |cx, r| concurrent(cx, r).boxed()),
        mt("concurrent-forms-mt", &["C30"], 4, 3, |cx, r| concurrent(cx, r).boxed()),
    ]
}

/// Thrown by methods.
#[derive(Debug, Clone, PartialEq)]
pub struct Thrown(pub u64);

/// What a method of an actor has seen.
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Log {
    pub calls: Vec<String>,
    pub sum: u64,
}

impl Log {
    fn put(&mut self, what: &str, args: impl Debug) {
        self.calls.push(format!("{what} {args:?}"));
    }
}

// ---- arguments

pub trait Gen {
    fn gen(r: &mut Rng) -> Self;
}
macro_rules! gen_int {
    ($($t:ty),*) => { $(impl Gen for $t {
        fn gen(r: &mut Rng) -> Self { match r.below(5) { 0 => <$t>::MIN, 1 => <$t>::MAX, 2 => r.below(4) as $t, _ => r.next() as $t } }
    })* };
}
gen_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, u128, i128);
impl Gen for () {
    fn gen(_: &mut Rng) {}
}
impl Gen for bool {
    fn gen(r: &mut Rng) -> Self {
        r.chance(50)
    }
}
impl Gen for char {
    fn gen(r: &mut Rng) -> Self {
        *r.pick(&['a', '\0', 'ß', '漢', '\u{10FFFF}'])
    }
}
impl Gen for f64 {
    fn gen(r: &mut Rng) -> Self {
        *r.pick(&[0.0, -0.0, 1.5, f64::INFINITY, f64::MIN_POSITIVE, -1e300])
    }
}
impl Gen for NonZeroU8 {
    fn gen(r: &mut Rng) -> Self {
        NonZeroU8::new(r.range(1, 255) as u8).unwrap()
    }
}
impl Gen for String {
    fn gen(r: &mut Rng) -> Self {
        let n = r.below(6);
        (0..n).map(|_| char::gen(r)).collect()
    }
}
impl Gen for &'static str {
    fn gen(r: &mut Rng) -> Self {
        r.pick(&["", "x", "static", "two words"])
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen(r: &mut Rng) -> Self {
        r.chance(70).then(|| T::gen(r))
    }
}
impl<T: Gen> Gen for Box<T> {
    fn gen(r: &mut Rng) -> Self {
        Box::new(T::gen(r))
    }
}
impl<T: Gen> Gen for Arc<T> {
    fn gen(r: &mut Rng) -> Self {
        Arc::new(T::gen(r))
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen(r: &mut Rng) -> Self {
        let n = r.below(4);
        (0..n).map(|_| T::gen(r)).collect()
    }
}
impl<T: Gen> Gen for VecDeque<T> {
    fn gen(r: &mut Rng) -> Self {
        Vec::gen(r).into()
    }
}
impl<T: Gen + Ord> Gen for BTreeSet<T> {
    fn gen(r: &mut Rng) -> Self {
        Vec::gen(r).into_iter().collect()
    }
}
impl<K: Gen + Ord, T: Gen> Gen for BTreeMap<K, T> {
    fn gen(r: &mut Rng) -> Self {
        Vec::gen(r).into_iter().collect()
    }
}
impl<A: Gen, B: Gen> Gen for (A, B) {
    fn gen(r: &mut Rng) -> Self {
        (A::gen(r), B::gen(r))
    }
}
impl<A: Gen, B: Gen, C: Gen> Gen for (A, B, C) {
    fn gen(r: &mut Rng) -> Self {
        (A::gen(r), B::gen(r), C::gen(r))
    }
}
impl<T: Gen, const N: usize> Gen for [T; N] {
    fn gen(r: &mut Rng) -> Self {
        std::array::from_fn(|_| T::gen(r))
    }
}
impl<T> Gen for PhantomData<T> {
    fn gen(_: &mut Rng) -> Self {
        PhantomData
    }
}
impl<T: Gen, E: Gen> Gen for Result<T, E> {
    fn gen(r: &mut Rng) -> Self {
        if r.chance(60) {
            Ok(T::gen(r))
        } else {
            Err(E::gen(r))
        }
    }
}

/// A type of the user's own.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Reply)]
pub enum Shape {
    Unit,
    Pair(u8, String),
    Named { left: i64, right: Option<Box<Shape>> },
}
impl Gen for Shape {
    fn gen(r: &mut Rng) -> Self {
        match r.below(4) {
            0 => Shape::Unit,
            1 => Shape::Pair(Gen::gen(r), Gen::gen(r)),
            2 => Shape::Named { left: Gen::gen(r), right: None },
            _ => Shape::Named { left: Gen::gen(r), right: Some(Box::new(Shape::gen(r))) },
        }
    }
}

/// A generic reply of the user's own.
#[derive(Debug, Clone, PartialEq, Reply)]
pub struct Wrapped<T>
where
    T: Debug + Send + 'static,
{
    pub inner: T,
    pub more: Vec<T>,
}

// ---- sending

/// Asks for what the methods have seen.
pub struct Snap;

macro_rules! logged {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Message<Snap> for $t {
            type Reply = Result<Log, Infallible>;
            async fn handle(&mut self, _: Snap, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
                Ok(self.log.clone())
            }
        }
    };
}

fn show<M, T: Debug, E: Debug>(res: &Result<T, SendError<M, E>>) -> String {
    match res {
        Ok(v) => format!("ok {v:?}"),
        Err(SendError::HandlerError(e)) => format!("error {e:?}"),
        Err(SendError::ActorNotRunning(_)) => "not running".into(),
        Err(SendError::ActorStopped) => "stopped".into(),
        Err(SendError::MailboxFull(_)) => "full".into(),
        Err(SendError::Timeout(_)) => "timeout".into(),
    }
}

/// Sends the message in one of the ways there are. Gives the outcome, if there is one to be had.
async fn send<A, M>(r: &mut Rng, a: &ActorRef<A>, m: M, tell_too: bool) -> Option<String>
where
    A: Actor + Message<M>,
    M: Send + 'static,
    <A as Message<M>>::Reply: Reply,
    <<A as Message<M>>::Reply as Reply>::Ok: Debug,
    <<A as Message<M>>::Reply as Reply>::Error: Debug + Sync,
{
    match r.below(if tell_too { 12 } else { 7 }) {
        0 => Some(show(&a.ask(m).send().await)),
        1 => Some(show(&a.ask(m).mailbox_timeout(Duration::from_secs(900)).reply_timeout(Duration::from_secs(900)).await)),
        2 => Some(show(&a.ask(m).try_send().await)),
        3 => {
            let p = a.ask(m).enqueue().await;
            Some(match p {
                Ok(p) => show(&p.await),
                Err(e) => format!("not enqueued {e:?}"),
            })
        }
        4 => {
            let p = a.ask(m).try_enqueue();
            Some(match p {
                Ok(p) => show(&p.await),
                Err(e) => format!("not enqueued {e:?}"),
            })
        }
        5 | 6 => Some(show(&a.ask(m).await)),
        7 => a.tell(m).await.map_err(|_| "not told".to_string()).err(),
        8 => a.tell(m).try_send().map_err(|_| "not told".to_string()).err(),
        9 => a.tell(m).mailbox_timeout(Duration::from_secs(900)).send().await.map_err(|_| "not told".to_string()).err(),
        10 => a.clone().recipient().tell(m).await.map_err(|_| "not told".to_string()).err(),
        _ => a.downgrade().upgrade().expect("alive").tell(m).send().await.map_err(|_| "not told".to_string()).err(),
    }
}

/// The outcome of a direct call, as an ask would show it.
fn direct<R: Reply>(v: R) -> String
where
    R::Ok: Debug,
{
    match v.to_result() {
        Ok(v) => format!("ok {v:?}"),
        Err(e) => format!("error {e:?}"),
    }
}

/// Sends `$msg { fields }` and calls the method with the same arguments on the twin.
macro_rules! same {
    // Not awaited, awaited
    (@call $twin:ident $method:ident ( $($f:ident),* ) sync) => { $twin.$method($($f),*) };
    (@call $twin:ident $method:ident ( $($f:ident),* ) async) => { $twin.$method($($f),*).await };
    (@msg $msg:ident []) => { $msg };
    (@msg $msg:ident [$($f:ident),+]) => { $msg { $($f),+ } };
    ($cx:ident, $r:ident, $a:ident, $twin:ident, $tell:expr, $kind:ident $method:ident => $msg:ident { $($f:ident : $t:ty),* }) => {{
        let state = $r.clone();
        $(let $f: $t = Gen::gen(&mut $r);)*
        let m = same!(@msg $msg [$($f),*]);
        $r = state;
        $(let $f: $t = Gen::gen(&mut $r);)*
        let expected = direct(same!(@call $twin $method ($($f),*) $kind));
        $cx.evt(0, "send", 0, 0, stringify!($msg).to_string());
        let got = send(&mut $r, &$a, m, $tell).await;
        if let Some(got) = got {
            $cx.stat("replies", 1);
            $cx.check(got == expected, &["C30"], concat!("reply:", stringify!($msg)), || format!("{} gave {got}, calling the method gives {expected}", stringify!($msg)));
        } else {
            $cx.stat("told", 1);
        }
    }};
}

async fn same_log<A: Actor + Message<Snap, Reply = Result<Log, Infallible>>>(cx: &Cx, a: &ActorRef<A>, twin: &Log, sig: &str) {
    let got = a.ask(Snap).await;
    let ok = got.as_ref().is_ok_and(|l| l == twin);
    cx.evt(0, "log", twin.calls.len() as u64, ok as u64, twin.calls.last().cloned().unwrap_or_default());
    cx.check(ok, &["C30"], sig, || match got {
        Ok(l) => {
            let i = l.calls.iter().zip(&twin.calls).position(|(a, b)| a != b).unwrap_or(l.calls.len().min(twin.calls.len()));
            format!("call {i} was {:?}, should be {:?}; sums {} and {}", l.calls.get(i), twin.calls.get(i), l.sum, twin.sum)
        }
        Err(e) => format!("the actor does not answer: {e:?}"),
    });
    cx.stat("calls_compared", twin.calls.len() as u64);
}

// ---- methods without generics

#[derive(Actor, Clone, Default)]
pub struct Plain {
    log: Log,
}
logged!([] Plain);

#[messages]
impl Plain {
    /// Not a message.
    fn helper(&mut self, x: u64) -> u64 {
        self.log.sum = self.log.sum.wrapping_mul(31).wrapping_add(x);
        self.log.sum
    }

    #[message]
    fn nothing(&mut self) {
        self.log.put("nothing", ());
    }
    #[message]
    pub fn sum_of(&self) -> u64 {
        self.log.sum
    }
    #[message]
    pub async fn sum_later(&self) -> u64 {
        tokio::task::yield_now().await;
        self.log.sum
    }
    #[message]
    pub fn one(&mut self, amount: u32) -> i64 {
        self.log.put("one", amount);
        self.helper(amount as u64) as i64
    }
    #[message]
    pub async fn one_async(&mut self, amount: u32) -> i64 {
        let before = self.helper(1);
        tokio::time::sleep(Duration::from_millis(1)).await;
        self.log.put("one_async", amount);
        self.helper(amount as u64 ^ before) as i64
    }
    /// Arguments of one type: mixing them up shows.
    #[message]
    pub fn alike(&mut self, b: u64, a: u64, d: u64, c: u64) -> (u64, u64, u64) {
        self.log.put("alike", (b, a, d, c));
        (b.wrapping_sub(a), d ^ c.rotate_left(3), a)
    }
    #[message]
    pub async fn alike_async(&mut self, z: String, y: String, x: String) -> String {
        self.log.put("alike_async", (&z, &y, &x));
        tokio::task::yield_now().await;
        format!("{x}|{y}|{z}")
    }
    #[message]
    pub(crate) fn many(
        &mut self,
        a: u8,
        b: i16,
        c: bool,
        d: char,
        e: f64,
        f: String,
        g: Option<&'static str>,
        h: Option<u8>,
        i: Vec<u8>,
        j: (u8, String),
        k: [u16; 3],
        l: BTreeMap<String, Option<i32>>,
        m: (),
        n: i128,
        o: Shape,
        p: Box<Shape>,
        q: Arc<String>,
        s: NonZeroU8,
        t: VecDeque<usize>,
        u: PhantomData<u8>,
    ) -> String {
        let all = format!("{a:?}{b:?}{c:?}{d:?}{e:?}{f:?}{g:?}{h:?}{i:?}{j:?}{k:?}{l:?}{m:?}{n:?}{o:?}{p:?}{q:?}{s:?}{t:?}{u:?}");
        self.log.put("many", &all);
        all
    }
    /// A message with derives, attributes and documented arguments.
    #[message(derive(Clone, Debug, PartialEq, Default))]
    #[inline]
    #[must_use]
    pub fn derived(
        &mut self,
        /// How often
        times: u8,
        /// What
        what: Option<String>,
    ) -> Vec<Option<String>> {
        self.log.put("derived", (times, &what));
        vec![what; times as usize % 4]
    }
    #[allow(dead_code)]
    #[message(derive(Clone, Copy, Debug))]
    pub fn derived_unit(&mut self) -> bool {
        self.log.sum += 1;
        self.log.sum % 2 == 0
    }
    #[message]
    pub fn mutable(&mut self, mut text: String, mut n: u64) -> (String, u64) {
        text.push('!');
        n = n.wrapping_add(1);
        self.log.put("mutable", (&text, n));
        (text, n)
    }
    #[message]
    pub fn r#type(&mut self, r#match: u8, _unused: u8) -> u8 {
        self.log.put("type", (r#match, _unused));
        r#match
    }
    #[message]
    pub fn get_http2_url_v10(&mut self, x: u8) -> u8 {
        self.log.put("url", x);
        x / 2
    }
    #[message]
    pub fn fallible(&mut self, res: Result<u32, String>) -> Result<u32, String> {
        self.log.put("fallible", &res);
        let v = res?;
        Ok(v / 2)
    }
    #[message]
    pub async fn fallible_async(&mut self, res: Result<Shape, u8>) -> Result<Shape, u8> {
        tokio::task::yield_now().await;
        self.log.put("fallible_async", &res);
        res
    }
    #[message]
    pub fn shaped(&mut self, s: Shape) -> Shape {
        self.log.put("shaped", &s);
        Shape::Named { left: 1, right: Some(Box::new(s)) }
    }
    #[message]
    pub fn wrap_up(&mut self, x: u16) -> Wrapped<u16> {
        self.log.put("wrapped", x);
        Wrapped { inner: x, more: vec![x / 2] }
    }
    #[message]
    pub fn optional(&mut self, x: Option<u16>) -> Option<u16> {
        self.log.put("optional", x);
        x.filter(|x| x % 2 == 0)
    }
    #[message]
    pub fn explicit(self: &mut Self, x: u16) -> () {
        self.log.put("explicit", x);
    }
    #[message]
    fn nested(&mut self, x: Option<Vec<(Result<u8, String>, [Option<bool>; 2])>>) -> BTreeSet<String> {
        self.log.put("nested", &x);
        x.into_iter().flatten().map(|p| format!("{p:?}")).collect()
    }
}

/// Another block, in another module than the type.
mod elsewhere {
    use super::*;

    #[messages]
    impl super::Plain {
        #[message]
        pub fn elsewhere(&mut self, a: u8, b: u8) -> u8 {
            self.log.put("elsewhere", (a, b));
            a ^ b.rotate_left(1)
        }
        #[message]
        pub(in crate::forms) async fn elsewhere_async(&mut self) -> u64 {
            self.helper(7)
        }
    }
}
use elsewhere::{Elsewhere, ElsewhereAsync};

/// A function carried by a message.
type Func = Box<dyn Fn(u64) -> u64 + Send + Sync>;

#[messages]
impl Plain {
    #[message]
    pub fn apply(&mut self, f: Func, to: u64) -> u64 {
        let y = f(to);
        self.log.put("apply", (to, y));
        y
    }
    #[message]
    pub async fn apply_async(&mut self, f: Box<dyn FnOnce(u64) -> BoxFuture<'static, u64> + Send>, to: u64) -> u64 {
        let y = f(to).await;
        self.log.put("apply_async", (to, y));
        y
    }
    #[message]
    pub fn pointer(&mut self, f: fn(u64) -> u64, to: u64) -> u64 {
        let y = f(to);
        self.log.put("pointer", (to, y));
        y
    }
    /// Moves what cannot be copied through and back.
    #[message]
    pub fn exchange(&mut self, cell: Arc<Mutex<Vec<u64>>>) -> Arc<Mutex<Vec<u64>>> {
        cell.lock().unwrap().push(self.log.sum);
        cell
    }
}

async fn plain(cx: Cx, mut r: Rng) {
    let mut twin = Plain { log: Log { calls: vec![], sum: r.below(100) } };
    let act = if r.chance(50) {
        kameo::spawn(twin.clone())
    } else {
        kameo::actor::spawn_with_mailbox(twin.clone(), if r.chance(50) { mailbox::bounded(r.range(50, 100) as usize) } else { mailbox::unbounded() })
    };
    if r.chance(50) {
        act.wait_for_startup().await;
    }
    for _ in 0..r.range(1, 25) {
        match r.below(27) {
            0 => same!(cx, r, act, twin, true, sync nothing => Nothing {}),
            1 => same!(cx, r, act, twin, false, sync sum_of => SumOf {}),
            2 => same!(cx, r, act, twin, false, async sum_later => SumLater {}),
            3 => same!(cx, r, act, twin, true, sync one => One { amount: u32 }),
            4 => same!(cx, r, act, twin, true, async one_async => OneAsync { amount: u32 }),
            5 | 24 => same!(cx, r, act, twin, true, sync alike => Alike { b: u64, a: u64, d: u64, c: u64 }),
            6 | 25 => same!(cx, r, act, twin, true, async alike_async => AlikeAsync { z: String, y: String, x: String }),
            7 => same!(cx, r, act, twin, true, sync many => Many {
                a: u8, b: i16, c: bool, d: char, e: f64, f: String, g: Option<&'static str>, h: Option<u8>, i: Vec<u8>,
                j: (u8, String), k: [u16; 3], l: BTreeMap<String, Option<i32>>, m: (), n: i128, o: Shape, p: Box<Shape>,
                q: Arc<String>, s: NonZeroU8, t: VecDeque<usize>, u: PhantomData<u8>
            }),
            8 => same!(cx, r, act, twin, true, sync derived => Derived { times: u8, what: Option<String> }),
            9 => same!(cx, r, act, twin, true, sync derived_unit => DerivedUnit {}),
            10 => same!(cx, r, act, twin, true, sync mutable => Mutable { text: String, n: u64 }),
            11 => {
                let (x, y): (u8, u8) = Gen::gen(&mut r);
                let expected = direct(twin.r#type(x, y));
                let got = act.ask(RType { r#match: x, _unused: y }).await;
                cx.check(show(&got) == expected, &["C30"], "reply:RType", || format!("{got:?}, not {expected}"));
            }
            12 => same!(cx, r, act, twin, true, sync get_http2_url_v10 => GetHttp2UrlV10 { x: u8 }),
            13 => same!(cx, r, act, twin, false, sync fallible => Fallible { res: Result<u32, String> }),
            14 => same!(cx, r, act, twin, false, async fallible_async => FallibleAsync { res: Result<Shape, u8> }),
            15 => same!(cx, r, act, twin, true, sync shaped => Shaped { s: Shape }),
            16 => same!(cx, r, act, twin, true, sync wrap_up => WrapUp { x: u16 }),
            17 => same!(cx, r, act, twin, true, sync optional => Optional { x: Option<u16> }),
            18 => same!(cx, r, act, twin, true, sync explicit => Explicit { x: u16 }),
            19 => same!(cx, r, act, twin, true, sync elsewhere => Elsewhere { a: u8, b: u8 }),
            20 => same!(cx, r, act, twin, true, async elsewhere_async => ElsewhereAsync {}),
            21 => {
                let (k, to) = (r.next(), r.next());
                let f = move |x: u64| x.wrapping_mul(3) ^ k;
                let (got, expected) = match r.below(3) {
                    0 => (show(&act.ask(Apply { f: Box::new(f), to }).await), twin.apply(Box::new(f), to)),
                    1 => {
                        let g = move |x: u64| -> BoxFuture<'static, u64> { async move { tokio::task::yield_now().await; f(x) }.boxed() };
                        (show(&act.ask(ApplyAsync { f: Box::new(g), to }).await), twin.apply_async(Box::new(g), to).await)
                    }
                    _ => {
                        let f = if k % 2 == 0 { |x: u64| x / 2 } else { |x: u64| !x };
                        (show(&act.ask(Pointer { f, to }).await), twin.pointer(f, to))
                    }
                };
                cx.check(got == format!("ok {expected}"), &["C30"], "reply:Apply", || format!("{got}, not {expected}"));
            }
            22 => {
                let cell = Arc::new(Mutex::new(vec![r.next()]));
                let got = act.ask(Exchange { cell: cell.clone() }).await;
                cx.check(
                    got.is_ok_and(|c| Arc::ptr_eq(&c, &cell) && cell.lock().unwrap().len() == 2 && cell.lock().unwrap()[1] == twin.log.sum),
                    &["C30"],
                    "reply:Exchange",
                    String::new,
                );
            }
            23 => {
                // What was derived for the message
                let m = Derived { times: 3, what: Some("w".into()) };
                let n = m.clone();
                cx.check(m == n && format!("{m:?}") == "Derived { times: 3, what: Some(\"w\") }" && Derived::default() == (Derived { times: 0, what: None }), &["C30"], "message-derives", || format!("{m:?}"));
                let Derived { times, what } = n;
                let expected = direct(twin.derived(times, what));
                let got = show(&act.ask(m).await);
                cx.check(got == expected, &["C30"], "reply:Derived", || format!("{got}, not {expected}"));
                let unit = DerivedUnit;
                let copy = unit;
                let (e1, e2) = (twin.derived_unit(), twin.derived_unit());
                let got = (act.ask(unit).await.ok(), act.ask(copy).await.ok());
                cx.check(got == (Some(e1), Some(e2)), &["C30"], "reply:DerivedUnit", || format!("{got:?}"));
            }
            _ => same!(cx, r, act, twin, true, sync nested => Nested { x: Option<Vec<(Result<u8, String>, [Option<bool>; 2])>> }),
        }
        if r.chance(40) {
            same_log(&cx, &act, &twin.log, "calls").await;
        }
        if r.chance(70) {
            // A told message may still be in the mailbox
            act.ask(Snap).await.ok();
        }
    }
    same_log(&cx, &act, &twin.log, "calls").await;
    cx.check(Plain::name() == "Plain", &["C30"], "name", || Plain::name().to_string());
}

// ---- generic methods and actors

pub trait Value: Gen + Clone + Debug + PartialEq + Send + Sync + 'static {}
impl<T: Gen + Clone + Debug + PartialEq + Send + Sync + 'static> Value for T {}

#[derive(Actor, Clone)]
pub struct Gn<T: Value + Reply> {
    log: Log,
    kept: T,
}
logged!([T: Value + Reply] Gn<T>);

#[messages]
impl<T: Value + Reply> Gn<T> {
    #[message]
    pub fn g_one(&mut self, a: T) -> T {
        self.log.put("g_one", &a);
        std::mem::replace(&mut self.kept, a)
    }
    #[message]
    pub fn g_none(&self) -> T {
        self.kept.clone()
    }
    #[message]
    pub async fn g_return_only(&mut self, twice: bool, n: u8) -> Vec<T> {
        self.log.put("g_return_only", (twice, n));
        tokio::task::yield_now().await;
        vec![self.kept.clone(); 1 + twice as usize]
    }
    #[message]
    pub fn g_around(&mut self, a: T, b: u64, c: T, d: u64) -> (T, u64, T, u64) {
        self.log.put("g_around", (&a, b, &c, d));
        (c, d, a, b)
    }
    #[message]
    pub fn g_inside(&mut self, a: Option<T>, b: (u8, T), c: [T; 2], d: BTreeMap<u8, Vec<Result<T, String>>>) -> String {
        self.log.put("g_inside", (&a, &b, &c, &d));
        format!("{d:?}{c:?}{b:?}{a:?}")
    }
    #[message]
    pub fn g_result(&mut self, a: Result<T, u8>) -> Result<T, u8> {
        self.log.put("g_result", &a);
        a
    }
    #[message]
    pub fn g_function(&mut self, f: Box<dyn Fn(T) -> T + Send>) -> T {
        let v = f(self.kept.clone());
        self.log.put("g_function", &v);
        v
    }
    #[message]
    pub fn g_pointer(&mut self, f: fn(&T, &T) -> bool, other: T) -> bool {
        let v = f(&self.kept, &other);
        self.log.put("g_pointer", (&other, v));
        v
    }
    #[message]
    pub fn g_mixed<V: Value>(&mut self, a: V, b: T, c: V) -> (V, V)
    where
        V: Clone,
    {
        self.log.put("g_mixed", (&a, &b, &c));
        (c, a)
    }
    #[message(derive(Clone, Debug))]
    pub async fn g_derived(&mut self, a: T, b: Option<T>) -> Wrapped<T> {
        self.log.put("g_derived", (&a, &b));
        Wrapped { more: b.into_iter().collect(), inner: a }
    }
}

#[derive(Actor, Clone)]
pub struct Two<T, U>
where
    T: Value,
    U: Value,
{
    log: Log,
    kept: Vec<(T, U)>,
}
logged!([T: Value, U: Value] Two<T, U>);

#[messages]
impl<T, U> Two<T, U>
where
    T: Value,
    U: Value + PartialEq<U>,
{
    #[message]
    pub fn t_both(&mut self, u: U, t: T) -> u64 {
        self.log.put("t_both", (&u, &t));
        self.kept.push((t, u));
        self.kept.len() as u64
    }
    #[message]
    pub async fn t_alternating(&mut self, a: T, b: U, c: T, d: U, e: (U, T)) -> Vec<(T, U)> {
        self.log.put("t_alternating", (&a, &b, &c, &d, &e));
        vec![(c, d), (a, b), (e.1, e.0)]
    }
    #[message]
    pub fn t_second(&mut self, b: U) -> bool {
        self.log.put("t_second", &b);
        self.kept.iter().any(|(_, u)| *u == b)
    }
    #[message]
    pub fn t_all(&self) -> Vec<(T, U)> {
        self.kept.clone()
    }
}

// Only for one pair of types
#[messages]
impl Two<String, u8> {
    #[message]
    pub fn t_concrete(&mut self, a: u8, b: u8) -> String {
        self.log.put("t_concrete", (a, b));
        self.kept.iter().map(|(s, n)| format!("{s}{n}{a}{b}")).collect()
    }
}

#[derive(Actor, Clone, Default)]
pub struct Sized_<const N: usize> {
    log: Log,
}
logged!([const N: usize] Sized_<N>);

#[messages]
impl<const N: usize> Sized_<N> {
    #[message]
    pub fn c_size(&mut self, plus: u8) -> usize {
        self.log.put("c_size", plus);
        N + plus as usize
    }
}

#[messages]
impl Plain {
    #[message]
    pub fn m_any<V: Value, W>(&mut self, w: W, v: V) -> (W, V)
    where
        W: Value + Ord,
    {
        self.log.put("m_any", (&w, &v));
        (w, v)
    }
    #[message]
    pub async fn m_array<const N: usize>(&mut self, a: [u8; N]) -> Vec<u8> {
        self.log.put("m_array", a);
        a.into_iter().rev().collect()
    }
}

fn constant<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}

async fn one_generic<T: Value + Reply<Ok = T, Error = Infallible>>(cx: &Cx, r0: &mut Rng) {
    let mut r = r0.fork();
    let mut twin = Gn { log: Log::default(), kept: T::gen(&mut r) };
    let act = kameo::spawn(twin.clone());
    for _ in 0..r.range(1, 12) {
        match r.below(12) {
            0 => same!(cx, r, act, twin, true, sync g_one => GOne { a: T }),
            1 => same!(cx, r, act, twin, false, sync g_none => GNone {}),
            2 => same!(cx, r, act, twin, true, async g_return_only => GReturnOnly { twice: bool, n: u8 }),
            3 | 4 => same!(cx, r, act, twin, true, sync g_around => GAround { a: T, b: u64, c: T, d: u64 }),
            5 => same!(cx, r, act, twin, true, sync g_inside => GInside { a: Option<T>, b: (u8, T), c: [T; 2], d: BTreeMap<u8, Vec<Result<T, String>>> }),
            6 => same!(cx, r, act, twin, false, sync g_result => GResult { a: Result<T, u8> }),
            7 => {
                let v = T::gen(&mut r);
                let w = v.clone();
                let got = show(&act.ask(GFunction { f: Box::new(move |_| v.clone()) }).await);
                let expected = format!("ok {:?}", twin.g_function(Box::new(move |_| w.clone())));
                cx.check(got == expected, &["C30"], "reply:GFunction", || format!("{got}, not {expected}"));
            }
            8 => {
                let other = if r.chance(50) { twin.kept.clone() } else { T::gen(&mut r) };
                let got = show(&act.ask(GPointer { f: constant::<T>, other: other.clone() }).await);
                let expected = format!("ok {:?}", twin.g_pointer(constant::<T>, other));
                cx.check(got == expected, &["C30"], "reply:GPointer", || format!("{got}, not {expected}"));
            }
            9 => same!(cx, r, act, twin, true, sync g_mixed => GMixed { a: Shape, b: T, c: Shape }),
            10 => same!(cx, r, act, twin, true, sync g_mixed => GMixed { a: u8, b: T, c: u8 }),
            _ => {
                same!(cx, r, act, twin, true, async g_derived => GDerived { a: T, b: Option<T> });
                let m = GDerived { a: twin.kept.clone(), b: None };
                cx.check(format!("{:?}", m.clone()) == format!("{m:?}"), &["C30"], "message-derives", String::new);
            }
        }
        if r.chance(50) {
            same_log(cx, &act, &twin.log, "calls").await;
        }
    }
    same_log(cx, &act, &twin.log, "calls").await;
    cx.check(Gn::<T>::name() == "Gn", &["C30"], "name", || Gn::<T>::name().to_string());
}

async fn two_generics<T: Value, U: Value>(cx: &Cx, r0: &mut Rng) {
    let mut r = r0.fork();
    let mut twin: Two<T, U> = Two { log: Log::default(), kept: vec![] };
    let act = kameo::spawn(twin.clone());
    for _ in 0..r.range(1, 12) {
        match r.below(4) {
            0 => same!(cx, r, act, twin, true, sync t_both => TBoth { u: U, t: T }),
            1 => same!(cx, r, act, twin, true, async t_alternating => TAlternating { a: T, b: U, c: T, d: U, e: (U, T) }),
            2 => same!(cx, r, act, twin, true, sync t_second => TSecond { b: U }),
            _ => same!(cx, r, act, twin, false, sync t_all => TAll {}),
        }
    }
    same_log(cx, &act, &twin.log, "calls").await;
}

async fn generic(cx: Cx, mut r: Rng) {
    for _ in 0..r.range(1, 4) {
        match r.below(10) {
            0 => one_generic::<u8>(&cx, &mut r).await,
            1 => one_generic::<String>(&cx, &mut r).await,
            2 => one_generic::<Shape>(&cx, &mut r).await,
            3 => one_generic::<()>(&cx, &mut r).await,
            4 => one_generic::<Option<Vec<u16>>>(&cx, &mut r).await,
            5 => two_generics::<u8, u8>(&cx, &mut r).await,
            6 => two_generics::<String, Option<bool>>(&cx, &mut r).await,
            7 => {
                let mut twin = Two::<String, u8> { log: Log::default(), kept: vec![("k".into(), r.below(9) as u8)] };
                let act = kameo::spawn(twin.clone());
                for _ in 0..r.range(1, 5) {
                    same!(cx, r, act, twin, true, sync t_concrete => TConcrete { a: u8, b: u8 });
                    same!(cx, r, act, twin, true, sync t_both => TBoth { u: u8, t: String });
                }
                same_log(&cx, &act, &twin.log, "calls").await;
            }
            8 => {
                let mut twin = Sized_::<5>::default();
                let act = kameo::spawn(twin.clone());
                same!(cx, r, act, twin, true, sync c_size => CSize { plus: u8 });
                same_log(&cx, &act, &twin.log, "calls").await;
                let mut twin = Sized_::<0>::default();
                let act = kameo::spawn(twin.clone());
                same!(cx, r, act, twin, true, sync c_size => CSize { plus: u8 });
                same_log(&cx, &act, &twin.log, "calls").await;
            }
            _ => {
                let mut twin = Plain::default();
                let act = kameo::spawn(twin.clone());
                same!(cx, r, act, twin, true, sync m_any => MAny { w: u8, v: String });
                same!(cx, r, act, twin, true, sync m_any => MAny { w: Shape, v: [f64; 3] });
                same!(cx, r, act, twin, true, async m_array => MArray { a: [u8; 3] });
                same!(cx, r, act, twin, true, async m_array => MArray { a: [u8; 0] });
                same_log(&cx, &act, &twin.log, "calls").await;
            }
        }
    }
}

// ---- methods which fail

/// Keeps what its panic hook was given.
#[derive(Default)]
pub struct Fails {
    log: Log,
}
logged!([] Fails);

impl Actor for Fails {
    type Error = Infallible;
    async fn on_panic(&mut self, _: WeakActorRef<Self>, err: PanicError) -> Result<ControlFlow<ActorStopReason>, Self::Error> {
        let what = if let Some(t) = err.with_downcast_ref(|t: &Thrown| t.clone()) {
            format!("thrown {}", t.0)
        } else if let Some(s) = err.with_str(|s| s.to_string()) {
            s
        } else {
            "something else".into()
        };
        self.log.calls.push(what);
        Ok(ControlFlow::Continue(()))
    }
}

#[messages]
impl Fails {
    #[message]
    pub fn fail(&mut self, res: Result<u8, u64>) -> Result<u8, Thrown> {
        self.log.sum += 1;
        res.map_err(Thrown)
    }
    #[message]
    pub async fn fail_later(&mut self, res: Result<u8, u64>) -> Result<u8, Thrown> {
        tokio::task::yield_now().await;
        self.log.sum += 1;
        let v = res.map_err(Thrown)?;
        Ok(v)
    }
    #[message]
    pub fn throw(&mut self, what: u64, text: bool) -> u64 {
        self.log.sum += 1;
        if text {
            panic!("vp {what}");
        }
        std::panic::panic_any(Thrown(what))
    }
    #[message]
    pub async fn throw_later(&mut self, what: u64) {
        tokio::task::yield_now().await;
        self.log.sum += 1;
        std::panic::panic_any(Thrown(what))
    }
}

async fn failing(cx: Cx, mut r: Rng) {
    let act = kameo::spawn(Fails::default());
    let mut twin = Log::default();
    for _ in 0..r.range(1, 15) {
        twin.sum += 1;
        let n = r.below(1000);
        match r.below(3) {
            0 => {
                let res = if r.chance(50) { Err(n) } else { Ok(n as u8) };
                let expected = match res {
                    Ok(v) => format!("ok {v}"),
                    Err(n) => format!("error {:?}", Thrown(n)),
                };
                cx.evt(0, "fail", n, res.is_ok() as u64, String::new());
                let got = if r.chance(50) { send(&mut r, &act, Fail { res }, true).await } else { send(&mut r, &act, FailLater { res }, true).await };
                match got {
                    Some(got) => {
                        cx.check(got == expected, &["C30"], "reply:Fail", || format!("{got}, not {expected}"));
                    }
                    None if res.is_err() => twin.calls.push(format!("thrown {n}")),
                    None => {}
                }
            }
            1 => {
                let text = r.chance(50);
                cx.evt(0, "throw", n, text as u64, String::new());
                let got = send(&mut r, &act, Throw { what: n, text }, true).await;
                cx.check(got.as_deref().unwrap_or("stopped") == "stopped", &["C30"], "reply:Throw", || format!("{got:?}"));
                twin.calls.push(if text { format!("vp {n}") } else { format!("thrown {n}") });
            }
            _ => {
                cx.evt(0, "throw", n, 2, String::new());
                let got = send(&mut r, &act, ThrowLater { what: n }, true).await;
                cx.check(got.as_deref().unwrap_or("stopped") == "stopped", &["C30"], "reply:ThrowLater", || format!("{got:?}"));
                twin.calls.push(format!("thrown {n}"));
            }
        }
    }
    same_log(&cx, &act, &twin, "failures").await;
}

// ---- many senders

#[derive(Actor, Clone, Default)]
pub struct Crowd {
    log: Log,
}
logged!([] Crowd);

#[messages]
impl Crowd {
    #[message]
    pub fn add(&mut self, who: u64, n: u64, extra: String) -> (u64, u64, String) {
        self.log.put("add", (who, n, &extra));
        (n, who, extra)
    }
    #[message]
    pub async fn add_later(&mut self, n: u64, who: u64, extra: Option<String>) -> Result<(u64, u64, String), String> {
        tokio::task::yield_now().await;
        let extra = extra.ok_or("none")?;
        self.log.put("add", (who, n, &extra));
        Ok((n, who, extra))
    }
}

async fn concurrent(cx: Cx, mut r: Rng) {
    let act = kameo::spawn(Crowd::default());
    let senders = r.range(2, 5);
    let per = r.range(1, 20);
    let mut tasks = vec![];
    for who in 0..senders {
        let (cx, mut r, act) = (cx.clone(), r.fork(), act.clone());
        tasks.push(tokio::spawn(async move {
            let mut sent = vec![];
            for n in 0..per {
                cx.pause(&mut r).await;
                let extra = String::gen(&mut r);
                sent.push(format!("add {:?}", (who, n, &extra)));
                let expected = format!("ok {:?}", (n, who, &extra));
                let got = if r.chance(50) {
                    send(&mut r, &act, Add { who, n, extra }, true).await
                } else {
                    send(&mut r, &act, AddLater { who, n, extra: Some(extra) }, true).await
                };
                cx.ev(who as u32, "sent", n, got.is_some() as u64);
                if let Some(got) = got {
                    cx.check(got == expected, &["C30"], "reply:Add", || format!("{got}, not {expected}"));
                }
            }
            sent
        }));
    }
    let mut all: HashMap<usize, Vec<String>> = HashMap::new();
    for (i, t) in tasks.into_iter().enumerate() {
        all.insert(i, t.await.expect("a sender"));
    }
    let Ok(log) = act.ask(Snap).await else {
        cx.fail(&["C30"], "no-log", "the actor does not answer");
        return;
    };
    cx.check(log.calls.len() as u64 == senders * per, &["C30"], "calls-count", || format!("{} calls of {}", log.calls.len(), senders * per));
    for (who, sent) in all {
        let got: Vec<&String> = log.calls.iter().filter(|c| c.starts_with(&format!("add ({who},"))).collect();
        cx.check(got.iter().copied().eq(sent.iter()), &["C30"], "calls-order", || format!("sender {who} sent {sent:?}, calls {got:?}"));
    }
    cx.stat("calls_compared", log.calls.len() as u64);
}
