//! The trace specification: an offline checker of what was called, answered and handled.
use std::collections::{BTreeMap, HashMap};

use crate::{core::*, probe::*};

/// Records around a call to an actor.
pub fn call(cx: &Cx, actor: u32, op: &Op, v: V) -> usize {
    cx.evt(actor, "call", op.uid, op.from, format!("{v:?}"))
}
pub fn ret(cx: &Cx, actor: u32, uid: u64, res: &Res) -> usize {
    cx.evt(actor, "ret", uid, res.code(), format!("{res:?}"))
}

/// Everything a client knows of one message.
#[derive(Clone, Debug)]
pub struct Msg {
    pub uid: u64,
    pub actor: u32,
    pub from: u64,
    pub v: V,
    pub out: Out,
    pub call: usize,
    pub acc: Option<usize>,
    pub ret: Option<usize>,
    pub res: Option<Res>,
    pub call_ms: u64,
    pub acc_ms: u64,
    pub ret_ms: u64,
}

pub type Msgs = std::sync::Arc<std::sync::Mutex<BTreeMap<u64, Msg>>>;

pub fn msgs() -> Msgs {
    Default::default()
}

/// Sends with everything recorded, returning the pending reply of a queued ask.
pub async fn rsend<'a>(cx: &Cx, ms: &Msgs, n: u32, v: V, a: &'a kameo::prelude::ActorRef<P>, op: Op) -> Option<(u64, PendFut<'a>)> {
    let uid = op.uid;
    let _p = cx.pend(format!("{v:?} of message {uid} to actor {n}"));
    let m = Msg {
        uid,
        actor: n,
        from: op.from,
        v,
        out: op.out,
        call: 0,
        acc: None,
        ret: None,
        res: None,
        call_ms: cx.ms(),
        acc_ms: 0,
        ret_ms: 0,
    };
    {
        // The call is recorded before it's made
        let mut g = ms.lock().unwrap();
        let pos = call(cx, n, &op, v);
        g.insert(uid, Msg { call: pos, ..m });
    }
    match send(cx, v, a, op).await {
        Ok(res) => {
            done(cx, ms, n, uid, res);
            None
        }
        Err(p) => {
            let pos = cx.ev(n, "accepted", uid, 0);
            let mut g = ms.lock().unwrap();
            if let Some(m) = g.get_mut(&uid) {
                m.acc = Some(pos);
                m.acc_ms = cx.ms();
            }
            Some((uid, p))
        }
    }
}

pub fn done(cx: &Cx, ms: &Msgs, n: u32, uid: u64, res: Res) {
    let pos = ret(cx, n, uid, &res);
    let mut g = ms.lock().unwrap();
    if let Some(m) = g.get_mut(&uid) {
        m.ret = Some(pos);
        m.ret_ms = cx.ms();
        if m.acc.is_none() && !res.refused() {
            m.acc = Some(pos);
            m.acc_ms = cx.ms();
        }
        m.res = Some(res);
    }
}

#[derive(Default, Debug)]
struct Seen {
    start: Vec<usize>,
    start_end: Option<(usize, u64)>,
    stop: Vec<(usize, String)>,
    stop_done: Option<usize>,
    ended: Option<(usize, String, u64)>,
    h: Vec<(usize, u64)>,
    order: Vec<usize>,
    kill: Option<usize>,
    stop_call: Vec<(usize, Option<usize>, bool)>,
    exempt: bool,
}

pub struct Opts {
    /// Bounded capacity of each actor, 0 when unbounded.
    pub caps: HashMap<u32, u64>,
    /// Every actor has ended.
    pub all_ended: bool,
    /// Actors which run in a thread or a task of their own, in real time.
    pub det: bool,
}

/// Checks the log of `P` actors against the properties of messaging and lifecycle.
pub fn check(cx: &Cx, ms: &Msgs, o: &Opts) {
    let evs = cx.events();
    let ms = ms.lock().unwrap().clone();
    let mut seen: BTreeMap<u32, Seen> = BTreeMap::new();
    let mut handled: HashMap<u64, Vec<(usize, u32)>> = HashMap::new();
    let mut h_end: HashMap<u64, (usize, u64)> = HashMap::new();
    let mut h_panic: HashMap<u64, usize> = HashMap::new();
    for (i, e) in evs.iter().enumerate() {
        let s = seen.entry(e.who).or_default();
        match e.kind {
            "start" => s.start.push(i),
            "start_end" => s.start_end = Some((i, e.b)),
            "stop" => s.stop.push((i, e.text.clone())),
            "stop_end" => s.stop_done = Some(i),
            "stop_out" => s.stop_done = Some(i),
            "ended" => s.ended = Some((i, e.text.clone(), e.a)),
            "h" => {
                s.h.push((i, e.a));
                handled.entry(e.a).or_default().push((i, e.who));
            }
            "h_end" => {
                h_end.insert(e.a, (i, e.b));
            }
            "h_panics" => {
                h_panic.insert(e.a, i);
            }
            "kill" => {
                if s.kill.is_none() {
                    s.kill = Some(i);
                }
            }
            "stop_call" => s.stop_call.push((i, None, false)),
            "stop_ret" => {
                // b is 1 when it was accepted
                if let Some(c) = s.stop_call.iter_mut().find(|c| evs[c.0].a == e.a) {
                    c.1 = Some(i);
                    c.2 = e.b == 1;
                }
            }
            "exempt" => s.exempt = true,
            _ => {}
        }
        if matches!(e.kind, "start" | "start_end" | "start_out" | "stop" | "stop_end" | "stop_out" | "h" | "h_end" | "h_panics" | "panic" | "panic_end" | "link" | "link_end" | "step" | "mark" | "gated" | "unwound" | "cancelled" | "ended") {
            s.order.push(i);
        }
    }
    let at = |i: usize| -> String {
        let e = &evs[i];
        format!("[{i} t={} #{} {} {} {} {}]", e.ms, e.who, e.kind, e.a, e.b, e.text)
    };

    // Each message
    for m in ms.values() {
        let hs = handled.get(&m.uid).cloned().unwrap_or_default();
        cx.stat("messages", 1);
        cx.check(hs.len() <= 1, &["C01"], "handled-twice", || format!("message {} handled {} times", m.uid, hs.len()));
        cx.check(hs.iter().all(|h| h.1 == m.actor), &["C01"], "handled-by-other-actor", || format!("message {} to actor {} handled by {:?}", m.uid, m.actor, hs));
        cx.check(hs.iter().all(|h| h.0 > m.call), &["C01"], "handled-before-sent", || format!("message {}", m.uid));
        let cap = o.caps.get(&m.actor).copied().unwrap_or(0);
        let s = &seen[&m.actor];
        if let (Some(res), Some(rp)) = (&m.res, m.ret) {
            cx.stat(&format!("result_{}", res.code()), 1);
            if res.refused() {
                cx.check(hs.is_empty(), &["C02"], "refused-but-handled", || format!("message {} by {:?} reported {res:?} but was handled {}", m.uid, m.v, at(hs[0].0)));
            }
            match res {
                Res::NotRunning(back) => {
                    if m.v.returns_msg() {
                        cx.check(*back == Some(m.uid), &["C02"], "other-message-back", || format!("{m:?}"));
                    }
                    // The stop hook is over once the mailbox is closed
                    cx.check(s.stop.iter().any(|(i, _)| *i < rp), &["C02"], "not-running-while-running", || format!("message {} by {:?}: not running, at {}", m.uid, m.v, at(rp)));
                }
                Res::Full(back) => {
                    if m.v.returns_msg() {
                        cx.check(*back == Some(m.uid), &["C02", "C13"], "other-message-back", || format!("{m:?}"));
                    }
                    cx.check(m.v.is_try() && cap > 0, &["C02", "C13"], "full-not-possible", || format!("{:?} to capacity {cap} reported full", m.v));
                }
                Res::TimeoutSpace(back) => {
                    if m.v.returns_msg() {
                        cx.check(*back == Some(m.uid), &["C02", "C13"], "other-message-back", || format!("{m:?}"));
                    }
                    let d = m.v.mailbox_timeout();
                    cx.check(d.is_some() && cap > 0, &["C02", "C13"], "space-timeout-not-possible", || format!("{:?} to capacity {cap} timed out", m.v));
                    if o.det {
                        cx.check(d == Some(m.ret_ms - m.call_ms), &["C13", "C02"], "space-timeout-at-other-time", || format!("{:?} timed out after {} ms", m.v, m.ret_ms - m.call_ms));
                    }
                }
                Res::TimeoutReply => {
                    let d = m.v.reply_timeout();
                    cx.check(d.is_some(), &["C02", "C13"], "reply-timeout-not-set", || format!("{:?}", m.v));
                    if let (true, Some(d)) = (o.det, d) {
                        cx.check(m.ret_ms >= m.call_ms + d, &["C13", "C02"], "reply-timeout-early", || format!("{:?} timed out after {} ms", m.v, m.ret_ms - m.call_ms));
                    }
                    // A reply sent before was lost
                    if let (true, Some((e, _)), Some(d)) = (o.det, h_end.get(&m.uid), d) {
                        cx.check(evs[*e].ms >= m.call_ms + d, &["C03", "C13"], "reply-missed", || format!("{:?} timed out though {}", m.v, at(*e)));
                    }
                }
                Res::Reply(n) => {
                    cx.check(*n == answer(m.uid), &["C03"], "other-reply", || format!("message {} got reply {n}, not {}", m.uid, answer(m.uid)));
                    cx.check(m.out == Out::Ok, &["C03", "C02"], "reply-instead-of-error", || format!("{m:?}"));
                    cx.check(h_end.get(&m.uid).map_or(false, |e| e.0 < rp), &["C03"], "reply-without-handling", || format!("message {}", m.uid));
                }
                Res::HandlerErr(e) => {
                    cx.check(m.out == Out::Fail(e.0), &["C02", "C03"], "other-handler-error", || format!("{m:?}"));
                    cx.check(h_end.get(&m.uid).map_or(false, |e| e.0 < rp), &["C03"], "error-without-handling", || format!("message {}", m.uid));
                }
                Res::Stopped => {
                    cx.check(m.v.is_ask(), &["C02"], "tell-stopped", || format!("{m:?}"));
                    if let Some((e, _)) = h_end.get(&m.uid) {
                        if m.v.is_ask() {
                            cx.fail(&["C03", "C02"], "reply-lost", format!("message {} was handled ({}) but its asker was told the actor stopped", m.uid, at(*e)));
                        }
                    } else if !h_panic.contains_key(&m.uid) {
                        // It was never handled or abandoned, so the actor is ending
                        // (a killed handler is dropped before the stop hook begins)
                        let ending = s.stop.iter().any(|(i, _)| *i < rp) || s.kill.map_or(false, |k| k < rp)
                            || (!o.det && s.order.iter().any(|i| *i < rp && (matches!(evs[*i].kind, "panic_end" | "link_end") && evs[*i].b == 0 || evs[*i].kind == "unwound")));
                        cx.check(ending, &["C02", "C03"], "stopped-while-running", || format!("message {} by {:?} reported stopped at {}", m.uid, m.v, at(rp)));
                    }
                }
                Res::Mangled => cx.fail(&["C02"], "mangled-message-back", format!("{m:?}")),
                Res::Sent => {}
            }
        }
    }

    // Order and completeness per sender and actor
    let mut by: BTreeMap<(u64, u32), Vec<&Msg>> = BTreeMap::new();
    for m in ms.values() {
        by.entry((m.from, m.actor)).or_default().push(m);
    }
    for ((from, actor), mut v) in by {
        v.sort_by_key(|m| m.call);
        let mut last: Option<(usize, u64)> = None;
        for w in &v {
            if let Some(hs) = handled.get(&w.uid) {
                if let Some((p, uid)) = last {
                    cx.check(hs[0].0 > p, &["C01"], "out-of-order", || {
                        format!("sender {from} sent message {uid} before {} to actor {actor}, handled {} then {}", w.uid, at(hs[0].0), at(p))
                    });
                }
                last = Some((hs[0].0, w.uid));
            }
        }
        // Nothing accepted is skipped
        if let Some((_, last_uid)) = last {
            let last_call = ms[&last_uid].call;
            for w in &v {
                let unhandled = !handled.contains_key(&w.uid);
                if unhandled && w.call < last_call && w.acc.map_or(false, |a| a < last_call) {
                    cx.fail(&["C01", "C04"], "skipped", format!("message {} from {from} to {actor} was accepted but never handled, though the later {last_uid} was", w.uid));
                }
            }
        }
    }

    // Each actor
    for (n, s) in &seen {
        if s.start.is_empty() && s.h.is_empty() && s.stop.is_empty() {
            continue;
        }
        cx.stat("actors", 1);
        // Hooks
        cx.check(s.start.len() == 1, &["C08"], "start-hook-count", || format!("actor {n}: start hook ran {} times", s.start.len()));
        cx.check(s.stop.len() <= 1, &["C08"], "stop-hook-count", || format!("actor {n}: stop hook ran {} times", s.stop.len()));
        if o.all_ended {
            cx.check(s.stop.len() == 1, &["C08"], "stop-hook-missing", || format!("actor {n}: the stop hook did not run"));
        }
        if let (Some(st), Some(first)) = (s.start.first(), s.order.first()) {
            cx.check(st == first, &["C08", "C04"], "before-start-hook", || format!("actor {n}: {} came first", at(*first)));
        }
        match s.start_end {
            Some((p, 0)) => {
                for (h, uid) in &s.h {
                    cx.check(*h > p, &["C04", "C08"], "handled-before-started", || format!("actor {n}: message {uid} at {}", at(*h)));
                }
            }
            _ => {
                cx.check(s.h.is_empty(), &["C04", "C08"], "handled-after-failed-start", || format!("actor {n}: {:?}", s.h));
            }
        }
        if let Some((p, 0)) = s.start_end {
            // What the actor sent itself while starting goes before everything the others had sent by then
            let from_itself = |m: &&Msg| m.actor == *n && m.from == 1000 + *n as u64 && m.acc.map_or(false, |a| a < p);
            let last_self = ms.values().filter(from_itself).filter_map(|m| handled.get(&m.uid).map(|h| (h[0].0, m.uid))).max();
            let lost = ms.values().filter(from_itself).find(|m| !handled.contains_key(&m.uid) && !s.stop_call.iter().any(|c| Some(c.0) < m.acc)).map(|m| m.uid);
            for m in ms.values().filter(|m| m.actor == *n && m.from != 1000 + *n as u64 && m.acc.map_or(false, |a| a < p)) {
                if let Some(h) = handled.get(&m.uid) {
                    if let Some((l, uid)) = last_self {
                        cx.check(h[0].0 > l, &["C04"], "self-sent-not-first", || format!("actor {n}: message {} of another was handled before {uid} which the actor sent itself while starting", m.uid));
                    }
                    cx.check(lost.is_none(), &["C04", "C01"], "self-sent-lost", || format!("actor {n}: message {lost:?} which it sent itself while starting was not handled, but the later {} was", m.uid));
                }
            }
        }
        if let Some((sp, reason)) = s.stop.first() {
            for i in &s.order {
                if i > sp && !matches!(evs[*i].kind, "step" | "mark" | "gated" | "stop_end" | "stop_out" | "unwound" | "cancelled" | "ended") {
                    cx.fail(&["C08"], "after-stop-hook", format!("actor {n}: {} after the stop hook", at(*i)));
                    break;
                }
            }
            if let Some((_, er, entered)) = &s.ended {
                cx.check(er == reason, &["C08"], "reasons-differ", || format!("actor {n}: stop hook was given {reason}, the task returned {er}"));
                cx.check(*entered == s.h.len() as u64, &["C10", "C08"], "state-lost", || format!("actor {n}: {} messages entered, state says {entered}", s.h.len()));
            }
        }
        // What follows what
        for (k, i) in s.order.iter().enumerate() {
            let e = &evs[*i];
            let next = s.order.get(k + 1).map(|i| &evs[*i]);
            let after_unwind = |k: usize| s.order.get(k).map(|i| &evs[*i]).and_then(|e| if e.kind == "unwound" { s.order.get(k + 1).map(|i| &evs[*i]) } else { Some(e) });
            match e.kind {
                "h_panics" => {
                    let want = ms.get(&e.a).map(|m| out_text(m.out));
                    let got = after_unwind(k + 1);
                    let ok = got.map_or(false, |g| g.kind == "panic" && Some(&g.text) == want.as_ref());
                    if want.is_some() {
                        cx.check(ok, &["C10"], "panic-not-reported", || format!("actor {n}: after {} the panic hook should get {want:?}, but next was {:?}", at(*i), got));
                    }
                }
                "h_end" if e.b == 1 => {
                    if let Some(m) = ms.get(&e.a) {
                        let got = next.map_or(false, |g| g.kind == "panic" && g.text == out_text(m.out));
                        if m.v.is_ask() {
                            cx.check(!got, &["C10"], "ask-error-panicked", || format!("actor {n}: the panic hook got the error of ask {}", m.uid));
                        } else {
                            cx.check(got, &["C10"], "tell-error-not-reported", || format!("actor {n}: after {} the panic hook should get {}, but next was {next:?}", at(*i), out_text(m.out)));
                        }
                    }
                }
                "panic" => {
                    let prev = if k > 0 { s.order.get(k - 1).map(|i| &evs[*i]) } else { None };
                    let ok = prev.map_or(false, |p| matches!(p.kind, "unwound" | "h_end" | "start_end" | "link_end"));
                    cx.check(ok, &["C10"], "panic-hook-unprovoked", || format!("actor {n}: {} after {prev:?}", at(*i)));
                }
                "panic_end" if e.b == 1 => {
                    if let Some(g) = next {
                        if s.start_end.map_or(false, |x| x.1 == 0) {
                            cx.check(!(g.kind == "stop" && g.text.starts_with("panicked")), &["C10"], "stopped-though-recovered", || format!("actor {n}: {g:?}"));
                        }
                    }
                }
                "panic_end" => {
                    cx.check(next.map_or(!o.all_ended, |g| g.kind == "stop"), &["C10"], "went-on-after-break", || format!("actor {n}: after {} came {next:?}", at(*i)));
                }
                "link_end" if e.b == 0 => {
                    cx.check(next.map_or(!o.all_ended, |g| matches!(g.kind, "stop" | "panic")), &["C11"], "went-on-after-link-break", || format!("actor {n}: after {} came {next:?}", at(*i)));
                }
                _ => {}
            }
        }
        // Kill
        if let (Some(k), true) = (s.kill, o.det) {
            let started = s.start_end.map_or(false, |x| x.0 < k);
            if s.start_end.map_or(false, |x| x.1 == 0) {
                let from = if started { k } else { s.start_end.map(|x| x.0).unwrap_or(k) };
                let stop_at = s.stop.first().map(|s| s.0).unwrap_or(usize::MAX);
                for i in &s.order {
                    if *i > from && *i < stop_at && matches!(evs[*i].kind, "h" | "step" | "mark" | "h_end" | "panic" | "link") {
                        cx.fail(&["C07"], "went-on-after-kill", format!("actor {n} killed at {}, then {}", at(k), at(*i)));
                        break;
                    }
                }
                if let Some((sp, reason)) = s.stop.first() {
                    if *sp > k && reason != "killed" {
                        let cause = s.order.iter().any(|i| *i < k && (matches!(evs[*i].kind, "panic_end" | "link_end") && evs[*i].b == 0))
                            || s.order.iter().enumerate().any(|(j, i)| *i < k && evs[*i].kind == "unwound" && j > 0 && matches!(evs[s.order[j - 1]].kind, "panic" | "step" | "mark"))
                            || s.stop_call.iter().any(|c| c.0 < k);
                        cx.check(cause, &["C07", "C08"], "kill-other-reason", || format!("actor {n} killed at {} ended with {reason}", at(k)));
                    }
                }
            }
        }
        // Graceful stop
        if let Some((sp, reason)) = s.stop.first() {
            if reason == "normal" && !s.exempt {
                let first_call = s.stop_call.iter().map(|c| c.0).min().unwrap_or(usize::MAX);
                for m in ms.values().filter(|m| m.actor == *n && m.acc.map_or(false, |a| a < first_call && a < *sp)) {
                    if !handled.contains_key(&m.uid) {
                        let props: &[&'static str] = if first_call == usize::MAX { &["C01", "C09"] } else { &["C06", "C01", "C04"] };
                        cx.fail(props, "accepted-not-handled", format!("message {} by {:?} was accepted by actor {n} before any stop, but not handled", m.uid, m.v));
                    }
                }
            }
            if let Some(ret) = s.stop_call.iter().filter(|c| c.2).filter_map(|c| c.1).min() {
                for m in ms.values().filter(|m| m.actor == *n && m.call > ret) {
                    if let Some(h) = handled.get(&m.uid) {
                        cx.fail(&["C06"], "handled-after-stop", format!("message {} was sent after the stop request ({}) but handled {}", m.uid, at(ret), at(h[0].0)));
                    }
                }
                let killed = s.kill.map_or(false, |k| k < *sp);
                let broke = s.order.iter().any(|i| matches!(evs[*i].kind, "panic_end" | "link_end") && evs[*i].b == 0) || s.order.iter().any(|i| evs[*i].kind == "unwound");
                let failed = s.start_end.map_or(true, |x| x.1 == 1);
                if !killed && !broke && !failed && *sp > ret {
                    cx.check(reason == "normal", &["C06", "C08"], "stop-other-reason", || format!("actor {n} was stopped but ended with {reason}"));
                }
            }
        }
    }
}
