//! A node of a kameo swarm, driven by one JSON command per line on stdin. Every command is answered by one
//! JSON line on stdout, in completion order. The oracle lives in the driver; the node only executes public API
//! calls and keeps the event logs of its actors.

use std::{
    collections::{BTreeMap, HashMap},
    ops::ControlFlow,
    panic::AssertUnwindSafe,
    sync::{Arc, Mutex},
    time::{Duration, Instant},
};

use futures::FutureExt;
use kameo::{
    actor::{ActorID, ActorRef, PreparedActor, RemoteActorRef, WeakActorRef},
    error::{ActorStopReason, PanicError, RegistryError, RemoteSendError, SendError},
    mailbox,
    message::{Context, Message},
    remote::{dial_opts::DialOpts, ActorSwarm, PeerId},
    remote_message, Actor, RemoteActor,
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tokio::io::{AsyncBufReadExt, BufReader};

type Log = Arc<Mutex<Vec<Value>>>;

fn hex(bytes: &[u8]) -> String {
    bytes.iter().map(|b| format!("{b:02x}")).collect()
}

fn id_hex(id: &ActorID) -> String {
    hex(&id.to_bytes())
}

fn reason_json(reason: &ActorStopReason) -> Value {
    match reason {
        ActorStopReason::Normal => json!("normal"),
        ActorStopReason::Killed => json!("killed"),
        ActorStopReason::Panicked(err) => {
            let text = err
                .with_str(|s| s.to_string())
                .unwrap_or_else(|| format!("<{err}>"));
            json!({ "panicked": text })
        }
        ActorStopReason::LinkDied { id, reason } => {
            json!({ "link_died": [id_hex(id), reason_json(reason)] })
        }
        ActorStopReason::PeerDisconnected => json!("peer_disconnected"),
    }
}

/// Fails to serialize when 1, and to deserialize when 2.
#[derive(Clone, Copy, Debug, Default)]
struct Poison(u8);

impl Serialize for Poison {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 == 1 {
            return Err(serde::ser::Error::custom("poisoned serialize"));
        }
        s.serialize_u8(self.0)
    }
}

impl<'de> Deserialize<'de> for Poison {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = u8::deserialize(d)?;
        if v == 2 {
            return Err(serde::de::Error::custom("poisoned deserialize"));
        }
        Ok(Poison(v))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Shape {
    Unit,
    Tuple(i64, String),
    Struct { a: Option<f64>, b: Vec<Shape> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Payload {
    text: String,
    bytes: Vec<u8>,
    num: i64,
    opt: Option<u64>,
    map: BTreeMap<String, i32>,
    shape: Shape,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Op {
    id: u64,
    kind: String,
    ms: u64,
    payload: Payload,
    poison: Poison,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OpOk {
    id: u64,
    payload: Payload,
    poison: Poison,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OpErr {
    id: u64,
    code: i32,
    payload: Payload,
    poison: Poison,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plain(u64);

/// A message which is never registered with the receiving node.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ghost(u64);

struct Core {
    log: Log,
    start: Instant,
    stop_on_link: bool,
}

impl Core {
    fn push(&self, mut v: Value) {
        v["t"] = json!(self.start.elapsed().as_micros() as u64);
        self.log.lock().unwrap().push(v);
    }
}

macro_rules! actor {
    ($name:ident, $remote:tt, $plain:tt) => {
        #[derive(RemoteActor)]
        #[remote_actor(id = $remote)]
        struct $name(Core);

        impl Actor for $name {
            type Error = String;

            async fn on_panic(
                &mut self,
                _: WeakActorRef<Self>,
                err: PanicError,
            ) -> Result<ControlFlow<ActorStopReason>, Self::Error> {
                let text = err.with_str(|s| s.to_string());
                self.0.push(json!({"ev": "on_panic", "text": text}));
                if text.as_deref().is_some_and(|t| t.starts_with("die")) {
                    return Ok(ControlFlow::Break(ActorStopReason::Panicked(err)));
                }
                Ok(ControlFlow::Continue(()))
            }

            async fn on_link_died(
                &mut self,
                _: WeakActorRef<Self>,
                id: ActorID,
                reason: ActorStopReason,
            ) -> Result<ControlFlow<ActorStopReason>, Self::Error> {
                self.0
                    .push(json!({"ev": "link_died", "id": id_hex(&id), "reason": reason_json(&reason)}));
                if self.0.stop_on_link {
                    return Ok(ControlFlow::Break(ActorStopReason::LinkDied {
                        id,
                        reason: Box::new(reason),
                    }));
                }
                Ok(ControlFlow::Continue(()))
            }

            async fn on_stop(
                &mut self,
                _: WeakActorRef<Self>,
                reason: ActorStopReason,
            ) -> Result<(), Self::Error> {
                self.0
                    .push(json!({"ev": "on_stop", "reason": reason_json(&reason)}));
                Ok(())
            }
        }

        #[remote_message($plain)]
        impl Message<Plain> for $name {
            type Reply = u64;

            async fn handle(&mut self, msg: Plain, _: &mut Context<Self, Self::Reply>) -> u64 {
                self.0.push(json!({"ev": "plain", "id": msg.0}));
                msg.0.wrapping_add(1)
            }
        }
    };
}

actor!(Probe, "probe", "plain-probe");
actor!(Other, "other", "plain-other");

#[remote_message("op")]
impl Message<Op> for Probe {
    type Reply = Result<OpOk, OpErr>;

    async fn handle(&mut self, op: Op, ctx: &mut Context<Self, Self::Reply>) -> Self::Reply {
        self.0.push(json!({"ev": "handled", "id": op.id, "kind": op.kind}));
        let Op {
            id,
            kind,
            ms,
            payload,
            poison,
        } = op;
        match kind.as_str() {
            "sleep" => tokio::time::sleep(Duration::from_millis(ms)).await,
            "panic" => panic!("boom {id}"),
            "die" => panic!("die {id}"),
            "kill" => {
                ctx.actor_ref().kill();
                futures::future::pending::<()>().await;
            }
            _ => {}
        }
        let poison = match kind.as_str() {
            "badreply" | "baderr" => Poison(1),
            "baddecode" | "baderrdecode" => Poison(2),
            _ => poison,
        };
        self.0.push(json!({"ev": "done", "id": id}));
        if kind == "fail" || kind == "baderr" || kind == "baderrdecode" {
            return Err(OpErr {
                id,
                code: ms as i32,
                payload,
                poison,
            });
        }
        Ok(OpOk {
            id,
            payload,
            poison,
        })
    }
}

impl Message<Ghost> for Probe {
    type Reply = u64;
    async fn handle(&mut self, msg: Ghost, _: &mut Context<Self, Self::Reply>) -> u64 {
        self.0.push(json!({"ev": "ghost", "id": msg.0}));
        msg.0
    }
}

impl kameo::remote::RemoteMessage<Ghost> for Probe {
    const REMOTE_ID: &'static str = "ghost";
}

fn remote_err<E>(err: RemoteSendError<E>, f: impl Fn(E) -> Value) -> Value {
    let (k, v) = match err {
        RemoteSendError::ActorNotRunning => ("ActorNotRunning", Value::Null),
        RemoteSendError::ActorStopped => ("ActorStopped", Value::Null),
        RemoteSendError::UnknownActor { actor_remote_id } => ("UnknownActor", json!(actor_remote_id)),
        RemoteSendError::UnknownMessage {
            actor_remote_id,
            message_remote_id,
        } => ("UnknownMessage", json!([actor_remote_id, message_remote_id])),
        RemoteSendError::BadActorType => ("BadActorType", Value::Null),
        RemoteSendError::MailboxFull => ("MailboxFull", Value::Null),
        RemoteSendError::ReplyTimeout => ("ReplyTimeout", Value::Null),
        RemoteSendError::HandlerError(err) => ("HandlerError", f(err)),
        RemoteSendError::SerializeMessage(s) => ("SerializeMessage", json!(s)),
        RemoteSendError::DeserializeMessage(s) => ("DeserializeMessage", json!(s)),
        RemoteSendError::SerializeReply(s) => ("SerializeReply", json!(s)),
        RemoteSendError::SerializeHandlerError(s) => ("SerializeHandlerError", json!(s)),
        RemoteSendError::DeserializeHandlerError(s) => ("DeserializeHandlerError", json!(s)),
        RemoteSendError::SwarmNotBootstrapped => ("SwarmNotBootstrapped", Value::Null),
        RemoteSendError::DialFailure => ("DialFailure", Value::Null),
        RemoteSendError::NetworkTimeout => ("NetworkTimeout", Value::Null),
        RemoteSendError::ConnectionClosed => ("ConnectionClosed", Value::Null),
        RemoteSendError::UnsupportedProtocols => ("UnsupportedProtocols", Value::Null),
        RemoteSendError::Io(e) => ("Io", json!(format!("{e:?}"))),
    };
    json!({"err": k, "v": v})
}

fn local_err<M, E>(err: SendError<M, E>, f: impl Fn(E) -> Value) -> Value {
    let (k, v) = match err {
        SendError::ActorNotRunning(_) => ("ActorNotRunning", Value::Null),
        SendError::ActorStopped => ("ActorStopped", Value::Null),
        SendError::MailboxFull(_) => ("MailboxFull", Value::Null),
        SendError::HandlerError(err) => ("HandlerError", f(err)),
        SendError::Timeout(_) => ("ReplyTimeout", Value::Null),
    };
    json!({"err": k, "v": v})
}

fn reg_err(err: RegistryError) -> Value {
    let k = match err {
        RegistryError::SwarmNotBootstrapped => "SwarmNotBootstrapped",
        RegistryError::BadActorType => "BadActorType",
        RegistryError::QuorumFailed { .. } => "QuorumFailed",
        RegistryError::Timeout => "Timeout",
        #[allow(unreachable_patterns)]
        _ => "Other",
    };
    json!({"err": k})
}

fn ok_json(ok: OpOk) -> Value {
    json!({"ok": {"id": ok.id, "payload": ok.payload}})
}

fn err_json(e: OpErr) -> Value {
    json!({"id": e.id, "code": e.code, "payload": e.payload})
}

#[derive(Clone)]
enum Local {
    Probe(ActorRef<Probe>),
    Other(ActorRef<Other>),
}

#[derive(Clone)]
enum Remote {
    Probe(RemoteActorRef<Probe>),
    Other(RemoteActorRef<Other>),
}

#[derive(Default)]
struct Node {
    locals: Mutex<HashMap<String, Local>>,
    remotes: Mutex<HashMap<String, Remote>>,
    logs: Mutex<HashMap<String, Log>>,
    #[allow(clippy::type_complexity)]
    joins: tokio::sync::Mutex<HashMap<String, tokio::task::JoinHandle<Value>>>,
}

macro_rules! each {
    ($e:expr, $ty:ident, $r:ident => $b:expr) => {
        match $e {
            $ty::Probe($r) => $b,
            $ty::Other($r) => $b,
        }
    };
}

fn dur(v: &Value) -> Option<Duration> {
    v.as_u64().map(Duration::from_millis)
}

fn s(cmd: &Value, key: &str) -> String {
    cmd[key].as_str().unwrap_or_else(|| panic!("no {key} in {cmd}")).to_string()
}

impl Node {
    fn local(&self, h: &str) -> Local {
        self.locals.lock().unwrap().get(h).unwrap_or_else(|| panic!("harness: no local {h}")).clone()
    }

    fn remote(&self, h: &str) -> Remote {
        self.remotes.lock().unwrap().get(h).unwrap_or_else(|| panic!("harness: no remote {h}")).clone()
    }

    async fn exec(self: Arc<Self>, cmd: Value) -> Value {
        match cmd["c"].as_str().unwrap() {
            "boot" => {
                let swarm = match ActorSwarm::bootstrap() {
                    Ok(swarm) => swarm,
                    Err(err) => return json!({"err": err.to_string()}),
                };
                let addr = format!("/ip4/127.0.0.1/udp/{}/quic-v1", cmd["port"]);
                match swarm.listen_on(addr.parse().unwrap()).await {
                    Ok(_) => json!({"ok": swarm.local_peer_id().to_string()}),
                    Err(err) => json!({"err": err.to_string()}),
                }
            }
            "dial" => {
                let peer: PeerId = s(&cmd, "peer").parse().unwrap();
                let opts = DialOpts::peer_id(peer)
                    .condition(if cmd["always"] == true {
                        kameo::remote::dial_opts::PeerCondition::Always
                    } else {
                        kameo::remote::dial_opts::PeerCondition::DisconnectedAndNotDialing
                    })
                    .addresses(vec![s(&cmd, "addr").parse().unwrap()])
                    .build();
                match ActorSwarm::get().unwrap().dial(opts).await {
                    Ok(()) => json!({"ok": null}),
                    Err(err) => json!({"err": err.to_string()}),
                }
            }
            "add_addr" => {
                let peer: PeerId = s(&cmd, "peer").parse().unwrap();
                ActorSwarm::get()
                    .unwrap()
                    .add_peer_address(peer, s(&cmd, "addr").parse().unwrap());
                json!({"ok": null})
            }
            "disconnect" => {
                let peer: PeerId = s(&cmd, "peer").parse().unwrap();
                ActorSwarm::get().unwrap().disconnect_peer_id(peer);
                json!({"ok": null})
            }
            "spawn" => {
                let log = Log::default();
                let h = s(&cmd, "h");
                self.logs.lock().unwrap().insert(h.clone(), log.clone());
                let core = Core {
                    log,
                    start: Instant::now(),
                    stop_on_link: cmd["stop_on_link"] == true,
                };
                macro_rules! go {
                    ($t:ident, $v:ident) => {{
                        let prepared = PreparedActor::<$t>::new(match cmd["cap"].as_u64() {
                            Some(cap) => mailbox::bounded(cap as usize),
                            None => mailbox::unbounded(),
                        });
                        let actor_ref = prepared.actor_ref().clone();
                        let id = actor_ref.id();
                        let join = prepared.spawn($t(core));
                        let join = tokio::spawn(async move {
                            match join.await {
                                Ok((_, reason)) => reason_json(&reason),
                                Err(err) => json!({ "join_error": err.to_string() }),
                            }
                        });
                        self.joins.lock().await.insert(h.clone(), join);
                        self.locals.lock().unwrap().insert(h, Local::$v(actor_ref));
                        json!({"ok": id_hex(&id), "display": id.to_string(), "seq": id.sequence_id()})
                    }};
                }
                match cmd["kind"].as_str() {
                    Some("other") => go!(Other, Other),
                    _ => go!(Probe, Probe),
                }
            }
            "register" => {
                let name = s(&cmd, "name");
                let res = each!(self.local(&s(&cmd, "h")), Local, r => r.register(&name).await);
                match res {
                    Ok(()) => json!({"ok": null}),
                    Err(err) => reg_err(err),
                }
            }
            "unregister" => {
                match ActorSwarm::get().unwrap().unregister(s(&cmd, "name")).await {
                    Ok(()) => json!({"ok": null}),
                    Err(err) => reg_err(err),
                }
            }
            "lookup" => {
                let name = s(&cmd, "name");
                macro_rules! go {
                    ($t:ident) => {
                        match RemoteActorRef::<$t>::lookup(&name).await {
                            Ok(Some(r)) => {
                                let id = id_hex(&r.id());
                                if let Some(h) = cmd["as"].as_str() {
                                    self.remotes.lock().unwrap().insert(h.to_string(), Remote::$t(r));
                                }
                                json!({ "ok": id })
                            }
                            Ok(None) => json!({ "ok": null }),
                            Err(err) => reg_err(err),
                        }
                    };
                }
                match cmd["kind"].as_str() {
                    Some("other") => go!(Other),
                    _ => go!(Probe),
                }
            }
            "lookup_local" => {
                let name = s(&cmd, "name");
                macro_rules! go {
                    ($t:ident) => {
                        match ActorRef::<$t>::lookup(&name).await {
                            Ok(Some(r)) => json!({ "ok": id_hex(&r.id()) }),
                            Ok(None) => json!({ "ok": null }),
                            Err(err) => reg_err(err),
                        }
                    };
                }
                match cmd["kind"].as_str() {
                    Some("other") => go!(Other),
                    _ => go!(Probe),
                }
            }
            "rask" => {
                let op: Op = serde_json::from_value(cmd["op"].clone()).unwrap();
                let op = Op { poison: Poison(cmd["poison"].as_u64().unwrap_or(0) as u8), ..op };
                let Remote::Probe(r) = self.remote(&s(&cmd, "as")) else { panic!("harness") };
                let (mt, rt) = (dur(&cmd["mt"]), dur(&cmd["rt"]));
                let is_try = cmd["try"] == true;
                let res = match (mt, rt, is_try) {
                    (None, None, false) => r.ask(&op).send().await,
                    (Some(mt), None, false) => r.ask(&op).mailbox_timeout(mt).send().await,
                    (None, Some(rt), false) => r.ask(&op).reply_timeout(rt).send().await,
                    (Some(mt), Some(rt), false) => {
                        r.ask(&op).mailbox_timeout(mt).reply_timeout(rt).send().await
                    }
                    (_, None, true) => r.ask(&op).try_send().await,
                    (_, Some(rt), true) => r.ask(&op).reply_timeout(rt).try_send().await,
                };
                match res {
                    Ok(ok) => ok_json(ok),
                    Err(err) => remote_err(err, err_json),
                }
            }
            "rtell" => {
                let op: Op = serde_json::from_value(cmd["op"].clone()).unwrap();
                let op = Op { poison: Poison(cmd["poison"].as_u64().unwrap_or(0) as u8), ..op };
                let Remote::Probe(r) = self.remote(&s(&cmd, "as")) else { panic!("harness") };
                let res = match (dur(&cmd["mt"]), cmd["try"] == true) {
                    (None, false) => r.tell(&op).send().await,
                    (Some(mt), false) => r.tell(&op).mailbox_timeout(mt).send().await,
                    (_, true) => r.tell(&op).try_send().await,
                };
                match res {
                    Ok(()) => json!({"ok": null}),
                    Err(err) => remote_err(err, |_| Value::Null),
                }
            }
            "rplain" => {
                let msg = Plain(cmd["id"].as_u64().unwrap());
                match each!(self.remote(&s(&cmd, "as")), Remote, r => r.ask(&msg).send().await) {
                    Ok(ok) => json!({"ok": ok}),
                    Err(err) => remote_err(err, |_| Value::Null),
                }
            }
            "rghost" => {
                let msg = Ghost(cmd["id"].as_u64().unwrap());
                let Remote::Probe(r) = self.remote(&s(&cmd, "as")) else { panic!("harness") };
                let res = if cmd["tell"] == true {
                    r.tell(&msg).send().await.map(|_| 0)
                } else {
                    r.ask(&msg).send().await
                };
                match res {
                    Ok(ok) => json!({"ok": ok}),
                    Err(err) => remote_err(err, |_| Value::Null),
                }
            }
            "ask" => {
                let op: Op = serde_json::from_value(cmd["op"].clone()).unwrap();
                let Local::Probe(r) = self.local(&s(&cmd, "h")) else { panic!("harness") };
                let (mt, rt) = (dur(&cmd["mt"]), dur(&cmd["rt"]));
                let is_try = cmd["try"] == true;
                let res = match (mt, rt, is_try) {
                    (None, None, false) => r.ask(op).send().await,
                    (Some(mt), None, false) => r.ask(op).mailbox_timeout(mt).send().await,
                    (None, Some(rt), false) => r.ask(op).reply_timeout(rt).send().await,
                    (Some(mt), Some(rt), false) => {
                        r.ask(op).mailbox_timeout(mt).reply_timeout(rt).send().await
                    }
                    (_, None, true) => r.ask(op).try_send().await,
                    (_, Some(rt), true) => r.ask(op).reply_timeout(rt).try_send().await,
                };
                match res {
                    Ok(ok) => ok_json(ok),
                    Err(err) => local_err(err, err_json),
                }
            }
            "tell" => {
                let op: Op = serde_json::from_value(cmd["op"].clone()).unwrap();
                let Local::Probe(r) = self.local(&s(&cmd, "h")) else { panic!("harness") };
                let res = match (dur(&cmd["mt"]), cmd["try"] == true) {
                    (None, false) => r.tell(op).send().await,
                    (Some(mt), false) => r.tell(op).mailbox_timeout(mt).send().await,
                    (_, true) => r.tell(op).try_send(),
                };
                match res {
                    Ok(()) => json!({"ok": null}),
                    Err(err) => local_err(err, |_| Value::Null),
                }
            }
            "link" | "unlink" => {
                // local -> remote
                let link = cmd["c"] == "link";
                let res = match (self.local(&s(&cmd, "h")), self.remote(&s(&cmd, "as"))) {
                    (Local::Probe(a), Remote::Probe(b)) if link => a.link_remote(&b).await,
                    (Local::Probe(a), Remote::Other(b)) if link => a.link_remote(&b).await,
                    (Local::Other(a), Remote::Probe(b)) if link => a.link_remote(&b).await,
                    (Local::Other(a), Remote::Other(b)) if link => a.link_remote(&b).await,
                    (Local::Probe(a), Remote::Probe(b)) => a.unlink_remote(&b).await,
                    (Local::Probe(a), Remote::Other(b)) => a.unlink_remote(&b).await,
                    (Local::Other(a), Remote::Probe(b)) => a.unlink_remote(&b).await,
                    (Local::Other(a), Remote::Other(b)) => a.unlink_remote(&b).await,
                };
                match res {
                    Ok(()) => json!({"ok": null}),
                    Err(err) => remote_err(err, |_| Value::Null),
                }
            }
            "rlink" | "runlink" => {
                let link = cmd["c"] == "rlink";
                let res = match (self.remote(&s(&cmd, "a")), self.remote(&s(&cmd, "b"))) {
                    (Remote::Probe(a), Remote::Probe(b)) if link => a.link_remote(&b).await,
                    (Remote::Probe(a), Remote::Other(b)) if link => a.link_remote(&b).await,
                    (Remote::Other(a), Remote::Probe(b)) if link => a.link_remote(&b).await,
                    (Remote::Other(a), Remote::Other(b)) if link => a.link_remote(&b).await,
                    (Remote::Probe(a), Remote::Probe(b)) => a.unlink_remote(&b).await,
                    (Remote::Probe(a), Remote::Other(b)) => a.unlink_remote(&b).await,
                    (Remote::Other(a), Remote::Probe(b)) => a.unlink_remote(&b).await,
                    (Remote::Other(a), Remote::Other(b)) => a.unlink_remote(&b).await,
                };
                match res {
                    Ok(()) => json!({"ok": null}),
                    Err(err) => remote_err(err, |_| Value::Null),
                }
            }
            "llink" => {
                match (self.local(&s(&cmd, "a")), self.local(&s(&cmd, "b"))) {
                    (Local::Probe(a), Local::Probe(b)) => a.link(&b).await,
                    (Local::Probe(a), Local::Other(b)) => a.link(&b).await,
                    (Local::Other(a), Local::Probe(b)) => a.link(&b).await,
                    (Local::Other(a), Local::Other(b)) => a.link(&b).await,
                };
                json!({"ok": null})
            }
            "kill" => {
                each!(self.local(&s(&cmd, "h")), Local, r => r.kill());
                json!({"ok": null})
            }
            "stop" => {
                let res = each!(self.local(&s(&cmd, "h")), Local, r => r.stop_gracefully().await);
                json!({"ok": res.is_ok()})
            }
            "drop" => {
                self.locals.lock().unwrap().remove(&s(&cmd, "h"));
                json!({"ok": null})
            }
            "wait" => {
                each!(self.local(&s(&cmd, "h")), Local, r => r.wait_for_shutdown().await);
                let join = self.joins.lock().await.remove(&s(&cmd, "h"));
                match join {
                    Some(join) => json!({"ok": join.await.unwrap()}),
                    None => json!({"ok": null}),
                }
            }
            "alive" => {
                json!({"ok": each!(self.local(&s(&cmd, "h")), Local, r => r.is_alive())})
            }
            "log" => json!({"ok": *self.logs.lock().unwrap()[&s(&cmd, "h")].lock().unwrap()}),
            "ping" => json!({"ok": null}),
            other => panic!("harness: unknown command {other}"),
        }
    }
}

#[tokio::main(flavor = "multi_thread", worker_threads = 2)]
async fn main() {
    let panics = Arc::new(Mutex::new(Vec::<String>::new()));
    std::panic::set_hook(Box::new({
        let panics = panics.clone();
        move |info| {
            let text = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            if text.starts_with("boom") || text.starts_with("die") {
                return;
            }
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line()));
            panics
                .lock()
                .unwrap()
                .push(format!("{text} at {}", loc.unwrap_or_default()));
        }
    }));
    kameo::error::set_actor_error_hook(|_| {});
    let node = Arc::new(Node::default());
    let mut lines = BufReader::new(tokio::io::stdin()).lines();
    while let Ok(Some(line)) = lines.next_line().await {
        let cmd: Value = serde_json::from_str(&line).unwrap();
        if cmd["c"] == "exit" {
            break;
        }
        if cmd["c"] == "panics" {
            println!("{}", json!({"r": cmd["r"], "ok": *panics.lock().unwrap()}));
            continue;
        }
        let node = node.clone();
        tokio::spawn(async move {
            let r = cmd["r"].clone();
            let mut out = AssertUnwindSafe(node.exec(cmd))
                .catch_unwind()
                .await
                .unwrap_or_else(|err| {
                    let text = err
                        .downcast_ref::<&str>()
                        .map(|s| s.to_string())
                        .or_else(|| err.downcast_ref::<String>().cloned())
                        .unwrap_or_default();
                    json!({ "panic": text })
                });
            out["r"] = r;
            println!("{out}");
        });
    }
    std::process::exit(0);
}
