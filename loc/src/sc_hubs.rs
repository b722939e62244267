//! Publish-subscribe actors, brokers and message buses.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

use futures::FutureExt;
use kameo::prelude::*;
use kameo_actors::{
    broker::{self, Broker},
    message_bus::{self, MessageBus},
    pubsub::{self, PubSub},
    DeliveryStrategy,
};
use tokio::sync::Semaphore;

use crate::{core::*, det, mt, probe::*, Family};

pub fn families() -> Vec<Family> {
    vec![
        det("pubsub", &["C18"], 25, |cx, r| pub_sub(cx, r).boxed()),
        mt("pubsub-mt", &["C18"], 5, 4, |cx, r| pub_sub_mt(cx, r).boxed()),
        det("broker", &["C19"], 25, |cx, r| hub(cx, r, false).boxed()),
        det("broker-patterns", &["C19"], 25, |cx, r| patterns(cx, r).boxed()),
        mt("broker-mt", &["C19"], 5, 4, |cx, r| hub_mt(cx, r, false).boxed()),
        det("bus", &["C20"], 25, |cx, r| hub(cx, r, true).boxed()),
        mt("bus-mt", &["C20"], 5, 4, |cx, r| hub_mt(cx, r, true).boxed()),
    ]
}

// ---- publish-subscribe

type FilterFn = fn(&Op) -> bool;
const FILTERS: [FilterFn; 4] = [|m| m.uid % 2 == 0, |m| m.uid % 3 != 0, |_| false, |m| m.pay.contains('7')];

#[derive(Clone, Debug)]
enum Filter {
    All,
    Fn(usize),
    /// Accepts according to how many it was asked about
    Nth(u64),
}

struct Sub {
    n: u32,
    a: ActorRef<P>,
    end: tokio::task::JoinHandle<()>,
    alive: bool,
    /// Blocked in a handler until the gate opens
    gate: Option<Arc<Semaphore>>,
    cap: u64,
    /// Accepted while blocked
    queued: Vec<u64>,
    /// What it must have handled, in order; the number of times each may at most be more
    want: Vec<u64>,
}

async fn make_sub(cx: &Cx, r: &mut Rng, n: u32) -> Sub {
    let cap = *r.pick(&[0, 1, 1, 2, 3, 8, 64]);
    let prepared = PreparedActor::new(mbox(cap));
    let a = prepared.actor_ref().clone();
    let end = spawn_prepared(cx, prepared, P::new(cx, n, Plan::resilient()));
    a.wait_for_startup().await;
    Sub { n, a, end, alive: true, gate: None, cap, queued: vec![], want: vec![] }
}

async fn end_sub(cx: &Cx, r: &mut Rng, s: &mut Sub) {
    s.alive = false;
    s.queued.clear();
    s.gate = None;
    cx.ev(s.n, "end", 0, 0);
    if r.chance(50) {
        s.a.kill();
    } else {
        // Whatever is queued before is handled first, so only when idle
        let _ = s.a.stop_gracefully().await;
    }
    s.a.wait_for_shutdown().await;
    cx.settle().await;
}

fn handled_by(cx: &Cx) -> BTreeMap<u32, Vec<u64>> {
    let mut by: BTreeMap<u32, Vec<u64>> = BTreeMap::new();
    for e in cx.events() {
        if e.kind == "h" && e.b != 90 {
            by.entry(e.who).or_default().push(e.a);
        }
    }
    by
}

enum Ps {
    Actor(ActorRef<PubSub<Op>>),
    Own(PubSub<Op>),
}

async fn pub_sub(cx: Cx, mut r: Rng) {
    let mut ps = if r.chance(70) {
        let cap = *r.pick(&[0u64, 1, 64]);
        let mb = if cap == 0 { kameo::mailbox::unbounded() } else { kameo::mailbox::bounded(cap as usize) };
        Ps::Actor(kameo::actor::spawn_with_mailbox(PubSub::new(), mb))
    } else {
        Ps::Own(PubSub::default())
    };
    let mut subs = vec![];
    for n in 1..=r.range(1, 6) {
        subs.push(make_sub(&cx, &mut r, n as u32).await);
    }
    // The model: each subscribed actor's filter, and the number of messages it was asked about
    let mut table: BTreeMap<u32, (Filter, u64)> = BTreeMap::new();
    let mut held: BTreeSet<u32> = BTreeSet::new();
    let asked: Arc<Mutex<BTreeMap<u64, u64>>> = Arc::default();
    let mut published = 0;
    for _ in 0..r.range(5, 40) {
        let i = r.us(subs.len());
        match r.below(20) {
            0..=5 => {
                if !subs[i].alive && r.chance(80) {
                    continue;
                }
                let s = &subs[i];
                let a = s.a.clone();
                held.insert(s.n);
                let f = match (r.below(3), &ps) {
                    (0, _) => Filter::All,
                    (1, Ps::Own(_)) => Filter::Nth(r.range(1, 3)),
                    _ => Filter::Fn(r.us(FILTERS.len())),
                };
                cx.evt(s.n, "subscribe", 0, 0, format!("{f:?}"));
                table.insert(s.n, (f.clone(), 0));
                match (&mut ps, f) {
                    (Ps::Actor(p), Filter::Fn(k)) => {
                        if r.chance(50) {
                            let _ = p.tell(pubsub::SubscribeFilter(a, FILTERS[k])).await;
                        } else {
                            let _ = p.ask(pubsub::SubscribeFilter(a, FILTERS[k])).await;
                        }
                    }
                    (Ps::Actor(p), _) => {
                        if r.chance(50) {
                            let _ = p.tell(pubsub::Subscribe(a)).await;
                        } else {
                            let _ = p.ask(pubsub::Subscribe(a)).await;
                        }
                    }
                    (Ps::Own(p), Filter::All) => p.subscribe(a),
                    (Ps::Own(p), Filter::Fn(k)) => p.subscribe_filter(a, FILTERS[k]),
                    (Ps::Own(p), Filter::Nth(k)) => {
                        let asked = asked.clone();
                        let mut n = 0;
                        p.subscribe_filter(a, move |m: &Op| {
                            *asked.lock().unwrap().entry(m.uid).or_default() += 1;
                            n += 1;
                            n % k == 0
                        })
                    }
                }
            }
            6 if subs[i].alive => {
                // Slow: the publisher waits for it
                let gate = Arc::new(Semaphore::new(0));
                let g2 = gate.clone();
                let op = Op::with(&cx, 90, vec![Step::Gate(gate)], Out::Ok);
                let _ = subs[i].a.tell(op).await;
                let ms = r.range(1, 50);
                let cx = cx.clone();
                tokio::spawn(async move {
                    cx.sleep(ms).await;
                    g2.add_permits(1);
                });
            }
            7 => {
                if subs[i].alive {
                    cx.settle().await;
                    end_sub(&cx, &mut r, &mut subs[i]).await;
                    if r.chance(20) && table.contains_key(&subs[i].n) {
                        // Left subscribed
                    }
                }
            }
            _ => {
                let out = if r.chance(10) { any_panic(&mut r) } else { Out::Ok };
                let op = Op::with(&cx, 1, vec![], out);
                let uid = op.uid;
                published += 1;
                cx.ev(0, "publish", uid, 0);
                for s in &mut subs {
                    if let Some((f, k)) = table.get_mut(&s.n) {
                        *k += 1;
                        let yes = match f {
                            Filter::All => true,
                            Filter::Fn(i) => FILTERS[*i](&op),
                            Filter::Nth(n) => *k % *n == 0,
                        };
                        if yes && s.alive {
                            s.want.push(uid);
                        }
                        if yes && !s.alive {
                            table.remove(&s.n);
                            held.remove(&s.n);
                        }
                    }
                }
                let _p = cx.pend(format!("publication {uid}"));
                match &mut ps {
                    Ps::Actor(p) => {
                        if r.chance(50) {
                            let res = p.ask(pubsub::Publish(op)).await;
                            cx.check(res.is_ok(), &["C18"], "publish-failed", || format!("{res:?}"));
                        } else {
                            let _ = p.tell(pubsub::Publish(op)).await;
                        }
                    }
                    Ps::Own(p) => p.publish(op).await,
                }
                let forgets = subs.iter().any(|s| !s.alive);
                if forgets && r.chance(50) {
                    cx.settle().await;
                    // Those known to have ended aren't held any more
                    for s in &subs {
                        if !s.alive && !held.contains(&s.n) {
                            let n = s.a.strong_count();
                            cx.check(n == 1, &["C18"], "ended-subscriber-kept", || format!("subscriber {} ended and was published to, but has {n} references", s.n));
                            cx.stat("forgotten", 1);
                        }
                    }
                }
                if r.chance(30) {
                    cx.settle().await;
                }
            }
        }
    }
    if let Ps::Actor(p) = &ps {
        let _p = cx.pend("end of publications");
        let _ = p.ask(pubsub::Publish(Op::with(&cx, 90, vec![], Out::Ok))).await;
        cx.check(p.is_alive(), &["C18"], "publisher-ended", || "the publish-subscribe actor has ended".into());
    }
    cx.settle().await;
    let by = handled_by(&cx);
    let mut delivered = 0;
    for s in &subs {
        let got = by.get(&s.n).cloned().unwrap_or_default();
        delivered += got.len() as u64;
        // Published last, to all
        cx.check(got == s.want, &["C18"], "wrong-deliveries", || {
            let sig = if got.len() > s.want.len() { "more" } else { "less" };
            format!("subscriber {} handled {got:?}, expected {:?} ({sig})", s.n, s.want)
        });
    }
    for (u, n) in asked.lock().unwrap().iter() {
        // One Nth filter per subscriber at most
        cx.check(*n <= subs.len() as u64, &["C18"], "filter-asked-twice", || format!("message {u} was put to filters {n} times"));
    }
    cx.stat("published", published);
    cx.stat("delivered", delivered);
    if delivered == 0 {
        cx.trivial();
    }
    for s in subs {
        s.a.kill();
        let _ = s.end.await;
    }
}

/// Several publishers at once, with subscribers coming and ending.
async fn pub_sub_mt(cx: Cx, mut r: Rng) {
    let cap = *r.pick(&[0u64, 1, 8, 64]);
    let mb = if cap == 0 { kameo::mailbox::unbounded() } else { kameo::mailbox::bounded(cap as usize) };
    let p = kameo::actor::spawn_with_mailbox(PubSub::<Op>::new(), mb);
    let mut subs = vec![];
    for n in 1..=r.range(2, 6) {
        let s = make_sub(&cx, &mut r, n as u32).await;
        let _ = p.ask(pubsub::Subscribe(s.a.clone())).await;
        subs.push(s);
    }
    let stable = r.range(1, subs.len() as u64) as usize;
    let mut tasks = vec![];
    for c in 1..=r.range(1, 4) {
        let (cx, p) = (cx.clone(), p.clone());
        let mut r = r.fork();
        tasks.push(tokio::spawn(async move {
            let mut sent = vec![];
            for _ in 0..r.range(1, 25) {
                cx.pause(&mut r).await;
                let op = Op::with(&cx, c, any_steps(&mut r), Out::Ok);
                let uid = op.uid;
                let _p = cx.pend("publication");
                let ok = if r.chance(50) { p.ask(pubsub::Publish(op)).await.is_ok() } else { p.tell(pubsub::Publish(op)).await.is_ok() };
                cx.check(ok, &["C18"], "publish-failed", String::new);
                sent.push(uid);
            }
            sent
        }));
    }
    for s in &subs[stable..] {
        cx.pause(&mut r).await;
        if r.chance(50) {
            s.a.kill();
        } else {
            let _ = s.a.stop_gracefully().await;
        }
    }
    let mut sent: Vec<Vec<u64>> = vec![];
    for t in tasks {
        let _p = cx.pend("publisher");
        sent.push(t.await.unwrap_or_default());
    }
    let _ = p.ask(pubsub::Publish(Op::with(&cx, 90, vec![], Out::Ok))).await;
    for s in &subs {
        let _p = cx.pend("subscriber");
        let _ = s.a.ask(Get).await;
    }
    let by = handled_by(&cx);
    let total: usize = sent.iter().map(|s| s.len()).sum();
    let first = by.get(&1).cloned().unwrap_or_default();
    cx.check(first.len() == total, &["C18"], "wrong-deliveries", || format!("{total} messages were published, {} delivered", first.len()));
    for s in &sent {
        let order: Vec<u64> = first.iter().copied().filter(|u| s.contains(u)).collect();
        cx.check(order == *s, &["C18"], "out-of-order", || format!("published {s:?}, handled {order:?}"));
    }
    for (i, s) in subs.iter().enumerate().skip(1) {
        let got = by.get(&s.n).cloned().unwrap_or_default();
        if i < stable {
            cx.check(got == first, &["C18"], "subscribers-differ", || format!("subscribers handled {first:?} and {got:?}"));
        } else {
            // What it handled before it ended
            cx.check(first.starts_with(&got), &["C18"], "subscribers-differ", || format!("subscribers handled {first:?} and {got:?} before ending"));
        }
    }
    cx.stat("published", total as u64);
    for s in subs {
        s.a.kill();
        let _ = s.end.await;
    }
}

// ---- brokers and buses

/// A message of one of several types.
#[derive(Clone, Debug)]
pub struct Tag<const N: usize>(pub Op);

impl<const N: usize> Message<Tag<N>> for P {
    type Reply = Result<u64, E>;
    async fn handle(&mut self, m: Tag<N>, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.cx.ev(self.n, "tag", m.0.uid, N as u64);
        let me = ctx.actor_ref();
        handle_op(self, m.0, me).await
    }
}

const PATTERNS: [&str; 22] = [
    "a", "a/b", "a/*", "*", "*/*", "?/b", "a?/b", "A/b", "*.x", ".*", "a/**", "**", "**/b", "a/*/c", "a*c", "a/b*", "a/?", "[ab]/c", "[!a]/c", "ab/c", "**/*.x", "?",
];
const TOPICS: [&str; 18] = ["a", "a/b", "A/b", "a/b/c", "b/c", "ab/b", "ab/c", "abc", "a/bc", ".x", "y.x", "a/.x", "a//b", "", "a/", "/b", "é", "c/c"];

/// Whether a pattern of literals, `*` and `?` matches.
fn simple(p: &[char], t: &[char]) -> bool {
    match (p.first(), t.first()) {
        (None, None) => true,
        (None, Some(_)) => false,
        (Some('*'), _) => simple(&p[1..], t) || t.first().is_some_and(|c| *c != '/') && simple(p, &t[1..]),
        (Some('?'), Some(c)) => *c != '/' && simple(&p[1..], &t[1..]),
        (Some(c), Some(d)) => c == d && simple(&p[1..], &t[1..]),
        (Some(_), None) => false,
    }
}

fn topic_matches(pattern: &str, topic: &str) -> bool {
    if pattern.contains("**") || pattern.contains('[') {
        let o = glob::MatchOptions { case_sensitive: true, require_literal_separator: true, require_literal_leading_dot: false };
        return glob::Pattern::new(pattern).unwrap().matches_with(topic, o);
    }
    simple(&pattern.chars().collect::<Vec<_>>(), &topic.chars().collect::<Vec<_>>())
}

#[derive(Clone)]
enum Hub {
    Broker(ActorRef<Broker<Op>>),
    Bus(ActorRef<MessageBus>),
}

/// Calls with each type
macro_rules! by_type {
    ($k:expr, $t:ident => $e:expr) => {
        match $k % 4 {
            0 => {
                type $t = Op;
                $e
            }
            1 => {
                type $t = Tag<1>;
                $e
            }
            2 => {
                type $t = Tag<2>;
                $e
            }
            _ => {
                type $t = Tag<3>;
                $e
            }
        }
    };
}
trait FromOp {
    fn from_op(op: Op) -> Self;
}
impl FromOp for Op {
    fn from_op(op: Op) -> Self {
        op
    }
}
impl<const N: usize> FromOp for Tag<N> {
    fn from_op(op: Op) -> Self {
        Tag(op)
    }
}

macro_rules! give {
    ($ask:expr, $to:expr, $m:expr) => {
        if $ask {
            $to.ask($m).await.is_ok()
        } else {
            $to.tell($m).await.is_ok()
        }
    };
}

impl Hub {
    fn keys(&self) -> usize {
        match self {
            Hub::Broker(_) => PATTERNS.len(),
            Hub::Bus(_) => 4,
        }
    }
    fn topics(&self) -> usize {
        match self {
            Hub::Broker(_) => TOPICS.len(),
            Hub::Bus(_) => 4,
        }
    }
    fn matches(&self, key: usize, topic: usize) -> bool {
        match self {
            Hub::Broker(_) => topic_matches(PATTERNS[key], TOPICS[topic]),
            Hub::Bus(_) => key == topic,
        }
    }
    fn is_alive(&self) -> bool {
        match self {
            Hub::Broker(b) => b.is_alive(),
            Hub::Bus(b) => b.is_alive(),
        }
    }
    async fn subscribe(&self, key: usize, a: ActorRef<P>, ask: bool) -> bool {
        match self {
            Hub::Broker(b) => give!(ask, b, broker::Subscribe { topic: PATTERNS[key].parse().unwrap(), recipient: a.recipient::<Op>() }),
            Hub::Bus(b) => by_type!(key, T => give!(ask, b, message_bus::Register(a.recipient::<T>()))),
        }
    }
    async fn unsubscribe(&self, key: Option<usize>, id: ActorID, ask: bool) -> bool {
        match self {
            Hub::Broker(b) => give!(ask, b, broker::Unsubscribe { topic: key.map(|k| PATTERNS[k].parse().unwrap()), actor_id: id }),
            Hub::Bus(b) => by_type!(key.unwrap(), T => give!(ask, b, message_bus::Unregister::<T>::new(id))),
        }
    }
    async fn publish(&self, topic: usize, op: Op, ask: bool) -> bool {
        match self {
            Hub::Broker(b) => give!(ask, b, broker::Publish { topic: TOPICS[topic].to_string(), message: op }),
            Hub::Bus(b) => by_type!(topic, T => give!(ask, b, message_bus::Publish(<T as FromOp>::from_op(op)))),
        }
    }
}

const SHORT: u64 = 40;
const LONG: u64 = 100_000_000;

fn make_hub(r: &mut Rng, bus: bool, strategy: DeliveryStrategy) -> Hub {
    let cap = *r.pick(&[0u64, 1, 64]);
    if bus {
        let mb = if cap == 0 { kameo::mailbox::unbounded() } else { kameo::mailbox::bounded(cap as usize) };
        let b = if strategy == DeliveryStrategy::BestEffort && r.chance(50) { MessageBus::default() } else { MessageBus::new(strategy) };
        Hub::Bus(kameo::actor::spawn_with_mailbox(b, mb))
    } else {
        let mb = if cap == 0 { kameo::mailbox::unbounded() } else { kameo::mailbox::bounded(cap as usize) };
        let b = if strategy == DeliveryStrategy::BestEffort && r.chance(50) { Broker::new(DeliveryStrategy::default()) } else { Broker::new(strategy) };
        Hub::Broker(kameo::actor::spawn_with_mailbox(b, mb))
    }
}

fn any_strategy(r: &mut Rng) -> DeliveryStrategy {
    match r.below(7) {
        0 => DeliveryStrategy::Guaranteed,
        1 => DeliveryStrategy::BestEffort,
        2 => DeliveryStrategy::TimedDelivery(Duration::from_millis(SHORT)),
        3 => DeliveryStrategy::TimedDelivery(Duration::from_millis(LONG)),
        4 => DeliveryStrategy::Spawned,
        5 => DeliveryStrategy::SpawnedWithTimeout(Duration::from_millis(SHORT)),
        _ => DeliveryStrategy::SpawnedWithTimeout(Duration::from_millis(LONG)),
    }
}

/// One operation at a time, with every subscriber's mailbox known.
async fn hub(cx: Cx, mut r: Rng, bus: bool) {
    let props: &[&'static str] = if bus { &["C20"] } else { &["C19"] };
    let strategy = any_strategy(&mut r);
    let hub = make_hub(&mut r, bus, strategy);
    cx.evt(0, "strategy", 0, 0, format!("{strategy:?}"));
    let mut subs = vec![];
    for n in 1..=r.range(1, 5) {
        subs.push(make_sub(&cx, &mut r, n as u32).await);
    }
    // Subscriptions: key and subscriber, any number of times
    let mut table: Vec<(usize, usize)> = vec![];
    let some: Vec<usize> = (0..r.range(1, 5)).map(|_| r.us(hub.keys())).collect();
    // Deliveries a sub may have got besides: an idle one may or may not have had time to take the earlier ones
    let mut maybe: BTreeMap<(u32, u64), u64> = BTreeMap::new();
    let mut ordered = true;
    let (mut published, mut waits, mut skips, mut ended) = (0, 0, 0, 0);
    for _ in 0..r.range(5, 30) {
        let i = r.us(subs.len());
        match r.below(20) {
            0..=5 => {
                let key = *r.pick(&some);
                cx.ev(i as u32 + 1, "subscribe", key as u64, 0);
                let _p = cx.pend("subscribing");
                let ok = hub.subscribe(key, subs[i].a.clone(), r.chance(50)).await;
                cx.check(ok, props, "subscribe-failed", String::new);
                table.push((key, i));
            }
            6 => {
                let key = (bus || r.chance(60)).then(|| *r.pick(&some));
                cx.ev(i as u32 + 1, "unsubscribe", key.unwrap_or(99) as u64, 0);
                let _p = cx.pend("unsubscribing");
                let ok = hub.unsubscribe(key, subs[i].a.id(), r.chance(50)).await;
                cx.check(ok, props, "unsubscribe-failed", String::new);
                table.retain(|(k, s)| *s != i || key.is_some_and(|key| *k != key));
                if table.iter().all(|(_, s)| *s != i) {
                    cx.settle().await;
                    // Messages on their way hold it too
                    if !matches!(strategy, DeliveryStrategy::Spawned | DeliveryStrategy::SpawnedWithTimeout(_)) {
                        let n = subs[i].a.strong_count();
                        // The message being handled, and its handler
                        let own = if subs[i].gate.is_some() { 2 } else { 0 };
                        cx.check(n <= 1 + own + subs[i].queued.len(), props, "unsubscribed-kept", || format!("subscriber {} was unsubscribed, but has {n} references", i + 1));
                    }
                }
            }
            7 | 8 if subs[i].alive => {
                cx.settle().await;
                if let Some(g) = subs[i].gate.take() {
                    cx.ev(i as u32 + 1, "release", 0, 0);
                    g.add_permits(1000);
                    subs[i].queued.clear();
                } else {
                    let gate = Arc::new(Semaphore::new(0));
                    let op = Op::with(&cx, 90, vec![Step::Gate(gate.clone())], Out::Ok);
                    let _ = subs[i].a.tell(op).await;
                    subs[i].gate = Some(gate);
                }
                cx.settle().await;
            }
            9 if subs[i].alive => {
                cx.settle().await;
                ended += 1;
                if subs[i].gate.is_some() {
                    // What waited in its mailbox is lost
                    let q = std::mem::take(&mut subs[i].queued);
                    let n = subs[i].want.len() - q.len();
                    subs[i].want.truncate(n);
                    subs[i].gate = None;
                    subs[i].alive = false;
                    cx.ev(subs[i].n, "end", 1, 0);
                    subs[i].a.kill();
                    subs[i].a.wait_for_shutdown().await;
                    cx.settle().await;
                } else {
                    end_sub(&cx, &mut r, &mut subs[i]).await;
                }
            }
            _ => {
                // Everything delivered before, so mailboxes are known
                cx.settle().await;
                let topic = if bus {
                    r.us(4)
                } else {
                    r.us(hub.topics())
                };
                let out = if r.chance(10) { any_panic(&mut r) } else { Out::Ok };
                let op = Op::with(&cx, 1, vec![], out);
                let uid = op.uid;
                published += 1;
                let mut offers: BTreeMap<usize, u64> = BTreeMap::new();
                for (k, s) in &table {
                    if hub.matches(*k, topic) {
                        *offers.entry(*s).or_default() += 1;
                    }
                }
                cx.evt(0, "publish", uid, topic as u64, format!("{offers:?}"));
                // Offers beyond the space of subscribers which are blocked
                let mut full: BTreeMap<usize, u64> = BTreeMap::new();
                for (s, k) in &offers {
                    let sub = &mut subs[*s];
                    if !sub.alive {
                        continue;
                    }
                    if sub.gate.is_none() {
                        let sure = if strategy == DeliveryStrategy::BestEffort && sub.cap > 0 { (*k).min(sub.cap) } else { *k };
                        for _ in 0..sure {
                            sub.want.push(uid);
                        }
                        if *k > sure {
                            maybe.insert((sub.n, uid), k - sure);
                        }
                        continue;
                    }
                    let free = if sub.cap == 0 { *k } else { sub.cap - sub.queued.len() as u64 };
                    for _ in 0..free.min(*k) {
                        sub.want.push(uid);
                        sub.queued.push(uid);
                    }
                    if *k > free {
                        full.insert(*s, k - free);
                    }
                }
                let over: u64 = full.values().sum();
                let dead: Vec<bool> = subs.iter().map(|s| !s.alive).collect();
                let began = tokio::time::Instant::now();
                let mut t = {
                    let (hub, cx) = (hub.clone(), cx.clone());
                    let props = props.to_vec();
                    tokio::spawn(async move {
                        let _p = cx.pend(format!("publication {uid}"));
                        let ok = hub.publish(topic, op, true).await;
                        let props: &[&'static str] = &props;
                        cx.check(ok, props, "publish-failed", String::new);
                    })
                };
                match strategy {
                    DeliveryStrategy::BestEffort => {
                        let _ = t.await;
                        skips += over;
                        cx.check(began.elapsed() == Duration::ZERO, props, "best-effort-waits", || format!("publishing took {:?}", began.elapsed()));
                    }
                    DeliveryStrategy::Guaranteed | DeliveryStrategy::TimedDelivery(_) if over > 0 => {
                        waits += over;
                        let limit = match strategy {
                            DeliveryStrategy::TimedDelivery(d) => Some(d),
                            _ => None,
                        };
                        if limit == Some(Duration::from_millis(SHORT)) && (full.len() > 1 || over > 1 || r.chance(50)) {
                            // Nobody makes space
                            let _ = t.await;
                            let took = began.elapsed();
                            let most = limit.unwrap() * over as u32 + Duration::from_millis(2 * over);
                            cx.check(took >= limit.unwrap() && took <= most, props, "timed-delivery-time", || format!("publishing with {over} offers to full subscribers took {took:?}"));
                        } else {
                            cx.sleep(SHORT - 10).await;
                            cx.check(!t.is_finished(), props, "does-not-wait", || format!("publishing {uid} finished without waiting for {full:?}"));
                            for (s, k) in &full {
                                let sub = &mut subs[*s];
                                sub.queued.clear();
                                if r.chance(75) {
                                    cx.ev(sub.n, "release", 0, 0);
                                    sub.gate.take().unwrap().add_permits(1000);
                                    for _ in 0..*k {
                                        sub.want.push(uid);
                                    }
                                } else {
                                    // Ends while waited for
                                    ended += 1;
                                    cx.ev(sub.n, "end", 2, 0);
                                    sub.gate = None;
                                    sub.alive = false;
                                    sub.a.kill();
                                }
                            }
                            let _p = cx.pend(format!("publication {uid} after making space"));
                            let _ = (&mut t).await;
                            let took = began.elapsed();
                            cx.check(took <= Duration::from_millis(SHORT - 8), props, "waits-for-nothing", || format!("publishing took {took:?} though there was space"));
                            cx.settle().await;
                            // What a killed one had taken is lost: what it handled is what it has to have handled
                            for s in full.keys() {
                                let sub = &mut subs[*s];
                                if !sub.alive {
                                    let got = handled_by(&cx).get(&sub.n).cloned().unwrap_or_default();
                                    if sub.want.starts_with(&got) {
                                        sub.want = got;
                                    }
                                }
                            }
                        }
                    }
                    DeliveryStrategy::Guaranteed | DeliveryStrategy::TimedDelivery(_) => {
                        let _ = t.await;
                        cx.check(began.elapsed() == Duration::ZERO, props, "waits-for-nothing", || format!("publishing took {:?}", began.elapsed()));
                    }
                    DeliveryStrategy::Spawned | DeliveryStrategy::SpawnedWithTimeout(_) => {
                        ordered = false;
                        let _p = cx.pend(format!("spawned publication {uid}"));
                        let _ = t.await;
                        cx.check(began.elapsed() == Duration::ZERO, props, "spawned-delivery-waits", || format!("publishing took {:?}", began.elapsed()));
                        if over > 0 {
                            waits += over;
                            // Either it's given up on, or delivered when there's space
                            let gives_up = strategy == DeliveryStrategy::SpawnedWithTimeout(Duration::from_millis(SHORT));
                            if gives_up && r.chance(50) {
                                cx.settle().await;
                            } else {
                                cx.sleep(if gives_up { SHORT - 10 } else { r.range(1, 5000) }).await;
                                for (s, k) in &full {
                                    let sub = &mut subs[*s];
                                    sub.queued.clear();
                                    if r.chance(80) {
                                        cx.ev(sub.n, "release", 0, 0);
                                        sub.gate.take().unwrap().add_permits(1000);
                                        for _ in 0..*k {
                                            sub.want.push(uid);
                                        }
                                    } else {
                                        ended += 1;
                                        sub.gate = None;
                                        sub.alive = false;
                                        cx.ev(sub.n, "end", 2, 0);
                                        sub.a.kill();
                                    }
                                }
                                cx.settle().await;
                                for s in full.keys() {
                                    let sub = &mut subs[*s];
                                    if !sub.alive {
                                        // What it had taken is lost
                                        let got = handled_by(&cx).get(&sub.n).cloned().unwrap_or_default();
                                        let mut rest = sub.want.clone();
                                        let known = got.iter().all(|u| rest.iter().position(|v| v == u).map(|i| rest.remove(i)).is_some());
                                        if known {
                                            sub.want = got;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                cx.settle().await;
                // Those found to have ended are removed
                let mut found: BTreeSet<usize> = BTreeSet::new();
                table.retain(|(k, s)| {
                    let gone = dead[*s] && hub.matches(*k, topic);
                    if gone {
                        found.insert(*s);
                    }
                    !gone
                });
                for s in found {
                    if table.iter().all(|(_, t)| *t != s) {
                        let n = subs[s].a.strong_count();
                        cx.check(n == 1, props, "ended-subscriber-kept", || format!("subscriber {} ended and was published to, but has {n} references", s + 1));
                        cx.stat("forgotten", 1);
                    }
                }
            }
        }
    }
    for s in &mut subs {
        if let Some(g) = s.gate.take() {
            g.add_permits(1000);
        }
    }
    cx.settle().await;
    cx.check(hub.is_alive(), props, "publisher-ended", || "the publishing actor has ended".into());
    let by = handled_by(&cx);
    let mut delivered = 0;
    for s in &subs {
        let mut got = by.get(&s.n).cloned().unwrap_or_default();
        delivered += got.len() as u64;
        let mut want = s.want.clone();
        if !ordered {
            got.sort();
            want.sort();
        }
        // The optional extra copies
        for ((n, u), k) in &maybe {
            if *n != s.n {
                continue;
            }
            for _ in 0..*k {
                if got.iter().filter(|v| *v == u).count() > want.iter().filter(|v| *v == u).count() {
                    let i = got.iter().position(|v| v == u).unwrap();
                    got.remove(i);
                }
            }
        }
        cx.check(got == want, props, "wrong-deliveries", || format!("subscriber {} handled {got:?}, expected {want:?}, by {strategy:?}", s.n));
    }
    cx.stat("published", published);
    cx.stat("delivered", delivered);
    cx.stat("waited_for_space", waits);
    cx.stat("skipped", skips);
    cx.stat("subscribers_ended", ended);
    if delivered == 0 {
        cx.trivial();
    }
    for s in subs {
        s.a.kill();
        let _ = s.end.await;
    }
}

/// Random patterns and topics, against the reference matcher.
async fn patterns(cx: Cx, mut r: Rng) {
    let b = kameo::spawn(Broker::<Op>::new(DeliveryStrategy::Guaranteed));
    let a = kameo::actor::spawn_with_mailbox(P::new(&cx, 1, Plan::resilient()), mbox(0));
    let text = |r: &mut Rng, chars: &[&str]| {
        let mut s = String::new();
        for _ in 0..r.below(6) {
            s.push_str(*r.pick(chars));
        }
        s
    };
    let pattern = loop {
        let p = text(&mut r, &["a", "b", "A", "/", ".", "*", "?", "*", "-", "é"]);
        if !p.contains("**") && glob::Pattern::new(&p).is_ok() {
            break p;
        }
    };
    let _ = b.ask(broker::Subscribe { topic: pattern.parse().unwrap(), recipient: a.clone().recipient::<Op>() }).await;
    let mut want = vec![];
    let mut topics = vec![];
    for _ in 0..40 {
        let topic = if r.chance(50) {
            // Made from the pattern
            let mut t = String::new();
            for c in pattern.chars() {
                match c {
                    '*' => t.push_str(&text(&mut r, &["a", "b", "/", "."])),
                    '?' => t.push_str(*r.pick(&["a", "/", ".", "é", "bb"])),
                    'a' if r.chance(10) => t.push('A'),
                    c => t.push(c),
                }
            }
            t
        } else {
            text(&mut r, &["a", "b", "A", "/", ".", "-", "*", "?", "é"])
        };
        let op = Op::new(&cx, 1);
        if topic_matches(&pattern, &topic) {
            want.push(op.uid);
        }
        topics.push((op.uid, topic.clone()));
        cx.evt(0, "publish", op.uid, hash_str(&topic) >> 8, topic.clone());
        let _ = b.ask(broker::Publish { topic, message: op }).await;
    }
    let _ = a.ask(Get).await;
    let got = handled_by(&cx).get(&1).cloned().unwrap_or_default();
    cx.stat("topics_matched", want.len() as u64);
    cx.stat("topics_not_matched", 40 - want.len() as u64);
    let diff: Vec<_> = topics.iter().filter(|(u, _)| got.contains(u) != want.contains(u)).collect();
    cx.check(got == want, &["C19"], "pattern-mismatch", || format!("pattern {pattern:?} and topics {diff:?}"));
}

/// Many publishers at once.
async fn hub_mt(cx: Cx, mut r: Rng, bus: bool) {
    let props: &'static [&'static str] = if bus { &["C20"] } else { &["C19"] };
    let strategy = *r.pick(&[
        DeliveryStrategy::Guaranteed,
        DeliveryStrategy::Guaranteed,
        DeliveryStrategy::BestEffort,
        DeliveryStrategy::TimedDelivery(Duration::from_secs(3600)),
        DeliveryStrategy::Spawned,
        DeliveryStrategy::SpawnedWithTimeout(Duration::from_secs(3600)),
    ]);
    let hub = make_hub(&mut r, bus, strategy);
    cx.evt(0, "strategy", 0, 0, format!("{strategy:?}"));
    let mut subs = vec![];
    let mut keys: Vec<Vec<usize>> = vec![];
    let some: Vec<usize> = (0..3).map(|_| r.us(hub.keys())).collect();
    for n in 1..=r.range(2, 6) {
        let s = make_sub(&cx, &mut r, n as u32).await;
        let mut ks = vec![];
        for k in &some {
            if r.chance(60) && !ks.contains(k) {
                hub.subscribe(*k, s.a.clone(), true).await;
                ks.push(*k);
            }
        }
        keys.push(ks);
        subs.push(s);
    }
    let stable = r.range(1, subs.len() as u64) as usize;
    let mut tasks = vec![];
    for c in 1..=r.range(1, 4) {
        let (cx, hub) = (cx.clone(), hub.clone());
        let mut r = r.fork();
        tasks.push(tokio::spawn(async move {
            let mut sent = vec![];
            for _ in 0..r.range(1, 25) {
                cx.pause(&mut r).await;
                let op = Op::with(&cx, c, any_steps(&mut r), Out::Ok);
                let uid = op.uid;
                let topic = r.us(hub.topics());
                let _p = cx.pend("publication");
                let ok = hub.publish(topic, op, r.chance(50)).await;
                cx.check(ok, props, "publish-failed", String::new);
                sent.push((uid, topic));
            }
            sent
        }));
    }
    for s in &subs[stable..] {
        cx.pause(&mut r).await;
        if r.chance(50) {
            s.a.kill();
        } else {
            let _ = s.a.stop_gracefully().await;
        }
    }
    let mut sent: Vec<Vec<(u64, usize)>> = vec![];
    for t in tasks {
        let _p = cx.pend("publisher");
        sent.push(t.await.unwrap_or_default());
    }
    {
        let _p = cx.pend("publisher's mailbox");
        hub.unsubscribe(Some(some[0]), subs[0].a.id(), true).await;
    }
    // What the spawned deliveries have left to do
    let want = |i: usize| -> u64 { sent.iter().flatten().map(|(_, t)| keys[i].iter().filter(|k| hub.matches(**k, *t)).count() as u64).sum() };
    let lossless = strategy != DeliveryStrategy::BestEffort;
    let done = AtomicU64::new(0);
    for (i, s) in subs.iter().enumerate() {
        let _p = cx.pend(format!("subscriber {i} getting its {} deliveries", want(i)));
        if i < stable && lossless {
            loop {
                match s.a.ask(Get).await {
                    Ok((n, _)) if n >= want(i) => break,
                    Ok(_) => {}
                    Err(e) => {
                        cx.fail(props, "subscriber-disturbed", format!("{e:?}"));
                        break;
                    }
                }
                cx.settle().await;
                if cx.ms() > 300_000 {
                    break;
                }
            }
        } else {
            let _ = s.a.ask(Get).await;
        }
        done.fetch_add(1, Ordering::SeqCst);
    }
    let by = handled_by(&cx);
    for (i, s) in subs.iter().enumerate() {
        let got = by.get(&s.n).cloned().unwrap_or_default();
        let mut n: BTreeMap<u64, usize> = BTreeMap::new();
        for u in &got {
            *n.entry(*u).or_default() += 1;
        }
        for (u, t) in sent.iter().flatten() {
            let k = keys[i].iter().filter(|k| hub.matches(**k, *t)).count();
            let g = n.get(u).copied().unwrap_or(0);
            let ok = if i < stable && lossless { g == k } else { g <= k };
            cx.check(ok, props, "wrong-deliveries", || format!("message {u} reached subscriber {} {g} times, expected {k}, by {strategy:?}", s.n));
        }
        if !matches!(strategy, DeliveryStrategy::Spawned | DeliveryStrategy::SpawnedWithTimeout(_)) {
            for p in &sent {
                let mut order: Vec<u64> = got.iter().copied().filter(|u| p.iter().any(|(v, _)| v == u)).collect();
                order.dedup();
                cx.check(order.windows(2).all(|w| w[0] < w[1]), props, "out-of-order", || format!("subscriber {} handled {order:?} of one publisher", s.n));
            }
        }
    }
    cx.check(hub.is_alive(), props, "publisher-ended", || "the publishing actor has ended".into());
    cx.stat("published", sent.iter().map(|s| s.len() as u64).sum());
    for s in subs {
        s.a.kill();
        let _ = s.end.await;
    }
}
