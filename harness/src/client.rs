//! One real client; the harness plays the marshal, the broker and any number of tasks calling the client.

use std::{
    collections::HashMap,
    future::Future,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
    task::{Poll, Waker},
    time::Duration,
};

use cdn_client::{Client, Config};
use cdn_proto::{
    connection::{
        limiter::Limiter,
        protocols::{memory::Memory, Connection, Listener as _, Protocol as _, UnfinalizedConnection as _},
        Bytes,
    },
    crypto::{
        signature::SignatureScheme,
        tls::{generate_cert_from_ca, LOCAL_CA_CERT, LOCAL_CA_KEY},
    },
    message::{AuthenticateResponse, Direct, Message},
};
use parking_lot::Mutex;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use tokio::{
    sync::mpsc,
    task::{AbortHandle, JoinHandle},
    time::{sleep, sleep_until, Instant},
};

use crate::common::*;

static WORLD: AtomicU64 = AtomicU64::new(0);

#[derive(Default)]
struct Attempt {
    start: u64,
    auth: bool,
    ph: &'static str,
    m_closed: Option<u64>,
    b_closed: Option<u64>,
    ended: Option<u64>,
    /// where an answer that is still owed goes
    m_answer: Option<mpsc::UnboundedSender<String>>,
    b_answer: Option<mpsc::UnboundedSender<String>>,
}

struct Session {
    topics: Vec<u8>,
    conn: Option<Connection>,
    got: Vec<Value>,
    closed: bool,
    reader: Option<AbortHandle>,
}

struct Env {
    name: String,
    t0: Instant,
    m: String,
    b: String,
    att: Vec<Attempt>,
    ses: Vec<Session>,
    stray: u64,
    sent: HashMap<u64, Vec<u8>>,
}
type Shared = Arc<Mutex<Env>>;

impl Env {
    fn now(&self) -> u64 {
        self.t0.elapsed().as_millis() as u64
    }
}

fn raw(m: Message) -> Bytes {
    Bytes::from_unchecked(m.serialize().unwrap())
}

/// Answers a connection the way `how` says; false: it was dropped.
async fn reply(conn: &Connection, how: &str, good: AuthenticateResponse) -> bool {
    let m = match how {
        "ok" => raw(Message::AuthenticateResponse(good)),
        "refuse" => raw(Message::AuthenticateResponse(AuthenticateResponse { permit: 0, context: "no".into() })),
        "wrong" => raw(Message::Direct(Direct { recipient: vec![1], message: vec![2] })),
        "garbage" => Bytes::from_unchecked(vec![0xff; 16]),
        "drop" => return false,
        x => panic!("unknown answer {x}"),
    };
    let _ = conn.send_message_raw(m).await;
    true
}

async fn until_closed(conn: &Connection) {
    while conn.recv_message_raw().await.is_ok() {}
}

async fn marshal_side(env: Shared, conn: Connection) {
    let n = {
        let mut e = env.lock();
        let start = e.now();
        e.att.push(Attempt { start, ph: "m", ..Attempt::default() });
        e.att.len() - 1
    };
    let first = conn.recv_message_raw().await;
    let auth = match first.ok().and_then(|r| Message::deserialize(&r).ok()) {
        Some(Message::AuthenticateWithKey(a)) => {
            a.public_key == key_bytes(1)
                && Toy::verify(&ToyKey(1), USER_NS, &a.timestamp.to_le_bytes(), &a.signature)
                && a.timestamp == now_secs()
        }
        _ => false,
    };
    let (tx, mut rx) = mpsc::unbounded_channel();
    let mut how = {
        let mut e = env.lock();
        e.att[n].auth = auth;
        e.att[n].m_answer = Some(tx);
        e.m.clone()
    };
    let mut keep = true;
    if how == "silent" {
        tokio::select! {
            h = rx.recv() => how = h.unwrap_or_default(),
            () = until_closed(&conn) => keep = false,
        }
    }
    if keep {
        let ep = if env.lock().b == "gone" { "nowhere".to_string() } else { format!("b1-{}-pub", env.lock().name) };
        env.lock().att[n].m_answer = None;
        if reply(&conn, &how, AuthenticateResponse { permit: 1000 + n as u64, context: ep }).await {
            until_closed(&conn).await;
        }
    }
    let mut e = env.lock();
    e.att[n].m_answer = None;
    e.att[n].m_closed = Some(e.now());
}

async fn broker_side(env: Shared, conn: Connection) {
    let n = match conn.recv_message_raw().await.ok().and_then(|r| Message::deserialize(&r).ok()) {
        Some(Message::AuthenticateWithPermit(p)) if p.permit >= 1000 => p.permit as usize - 1000,
        _ => {
            env.lock().stray += 1;
            return;
        }
    };
    let (tx, mut rx) = mpsc::unbounded_channel();
    let mut how = {
        let mut e = env.lock();
        if n >= e.att.len() || e.att[n].ph != "m" {
            e.stray += 1;
            return;
        }
        e.att[n].ph = "b";
        e.att[n].b_answer = Some(tx);
        e.b.clone()
    };
    let mut keep = true;
    if how == "silent" {
        tokio::select! {
            h = rx.recv() => how = h.unwrap_or_default(),
            () = until_closed(&conn) => keep = false,
        }
    }
    env.lock().att[n].b_answer = None;
    if keep && reply(&conn, &how, AuthenticateResponse { permit: 1, context: String::new() }).await {
        if how == "ok" {
            match conn.recv_message_raw().await.ok().and_then(|r| Message::deserialize(&r).ok()) {
                Some(Message::Subscribe(topics)) => {
                    let j = {
                        let mut e = env.lock();
                        e.att[n].ph = "s";
                        e.att[n].ended = Some(e.now());
                        e.ses.push(Session { topics, conn: Some(conn.clone()), got: vec![], closed: false, reader: None });
                        e.ses.len() - 1
                    };
                    let (env2, conn) = (env.clone(), conn);
                    let h = tokio::spawn(async move {
                        while let Ok(r) = conn.recv_message_raw().await {
                            let mut e = env2.lock();
                            let v = match Message::deserialize(&r) {
                                Ok(Message::Subscribe(t)) => json!({"t": "sub", "id": 0, "topics": t}),
                                Ok(Message::Unsubscribe(t)) => json!({"t": "unsub", "id": 0, "topics": t}),
                                Ok(Message::Direct(d)) => {
                                    let id = unpayload(&d.message).0;
                                    let good = e.sent.get(&id).is_some_and(|s| s.as_slice() == r.as_slice());
                                    json!({"t": if good { "msg" } else { "corrupt" }, "id": id % 1_000_000, "topics": []})
                                }
                                Ok(Message::Broadcast(b)) => {
                                    let id = unpayload(&b.message).0;
                                    let good = e.sent.get(&id).is_some_and(|s| s.as_slice() == r.as_slice());
                                    json!({"t": if good { "msg" } else { "corrupt" }, "id": id % 1_000_000, "topics": []})
                                }
                                _ => json!({"t": "odd", "id": 0, "topics": []}),
                            };
                            e.ses[j].got.push(v);
                        }
                        env2.lock().ses[j].closed = true;
                    });
                    env.lock().ses[j].reader = Some(h.abort_handle());
                    return;
                }
                _ => env.lock().stray += 1,
            }
        } else {
            until_closed(&conn).await;
        }
    }
    let mut e = env.lock();
    e.att[n].b_closed = Some(e.now());
}

/// A future that is polled only while its gate is open.
#[derive(Default)]
struct Gate {
    shut: bool,
    waker: Option<Waker>,
}

struct Call {
    gate: Arc<Mutex<Gate>>,
    task: JoinHandle<()>,
}

struct World {
    env: Shared,
    client: Client<Conn>,
    marshal: Option<JoinHandle<()>>,
    broker: JoinHandle<()>,
    calls: Vec<Call>,
    ret: Arc<Mutex<Vec<(&'static str, u64)>>>,
    clock: u64,
    ev: Vec<Value>,
}

fn listener(env: Shared, ep: String, marshal: bool) -> impl Future<Output = JoinHandle<()>> {
    async move {
        let (cert, key) = generate_cert_from_ca(LOCAL_CA_CERT, LOCAL_CA_KEY).unwrap();
        let l = Memory::bind(&ep, cert, key).await.unwrap();
        tokio::spawn(async move {
            while let Ok(u) = l.accept().await {
                if let Ok(c) = u.finalize(Limiter::none()).await {
                    if marshal {
                        tokio::spawn(marshal_side(env.clone(), c));
                    } else {
                        tokio::spawn(broker_side(env.clone(), c));
                    }
                }
            }
        })
    }
}

impl World {
    async fn new(init: Value) -> Self {
        let name = format!("c{}", WORLD.fetch_add(1, Ordering::SeqCst));
        let env = Arc::new(Mutex::new(Env {
            name: name.clone(),
            t0: Instant::now(),
            m: "ok".into(),
            b: "ok".into(),
            att: vec![],
            ses: vec![],
            stray: 0,
            sent: HashMap::new(),
        }));
        let marshal = listener(env.clone(), format!("marshal-{name}"), true).await;
        let broker = listener(env.clone(), format!("b1-{name}-pub"), false).await;
        let client = Client::<Conn>::new(Config {
            endpoint: format!("marshal-{name}"),
            use_local_authority: true,
            keypair: keypair(1),
            subscribed_topics: u64s(&init["subs"]).iter().map(|t| *t as u8).collect(),
        });
        World { env, client, marshal: Some(marshal), broker, calls: vec![], ret: Arc::default(), clock: 0, ev: vec![init] }
    }

    fn call(&mut self, op: &Value) {
        let n = self.calls.len();
        let c = self.client.clone();
        let id = op["id"].as_u64().unwrap();
        let topics: Vec<u8> = u64s(&op["topics"]).iter().map(|t| *t as u8).collect();
        let kind = op["k"].as_str().unwrap().to_string();
        if kind == "send" {
            let m = if id % 2 == 0 {
                Message::Direct(Direct { recipient: key_bytes(2), message: payload(id, 0, 0) })
            } else {
                Message::Broadcast(cdn_proto::message::Broadcast { topics: vec![0, 1], message: payload(id, 0, 0) })
            };
            self.env.lock().sent.insert(id, m.serialize().unwrap());
        }
        let fut = async move {
            let res = match kind.as_str() {
                "send" if id % 2 == 0 => c.send_direct_message(&ToyKey(2), payload(id, 0, 0)).await,
                "send" => c.send_broadcast_message(vec![0, 1], payload(id, 0, 0)).await,
                "sub" => c.subscribe(topics).await,
                "unsub" => c.unsubscribe(topics).await,
                "flush" => c.soft_close().await,
                "init" => c.ensure_initialized().await,
                "close" => {
                    c.close().await;
                    Ok(())
                }
                "recv" => {
                    return match c.receive_message().await {
                        Ok(Message::Direct(d)) => ("msg", unpayload(&d.message).0),
                        Ok(_) => ("odd", 0),
                        Err(_) => ("err", 0),
                    }
                }
                x => panic!("unknown call {x}"),
            };
            if res.is_ok() { ("ok", 0) } else { ("err", 0) }
        };
        self.ret.lock().push(("p", 0));
        let ret = self.ret.clone();
        let gate: Arc<Mutex<Gate>> = Arc::default();
        let g = gate.clone();
        let task = tokio::spawn(async move {
            let mut fut = Box::pin(fut);
            let r = std::future::poll_fn(move |cx| {
                let mut g = g.lock();
                if g.shut {
                    g.waker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                drop(g);
                fut.as_mut().poll(cx)
            })
            .await;
            ret.lock()[n] = r;
        });
        self.calls.push(Call { gate, task });
    }

    async fn apply(&mut self, mut op: Value) {
        match op["op"].as_str().unwrap() {
            "call" => self.call(&op),
            "cancel" => self.calls[op["n"].as_u64().unwrap() as usize - 1].task.abort(),
            "park" => {
                let g = &self.calls[op["n"].as_u64().unwrap() as usize - 1].gate;
                let mut g = g.lock();
                g.shut = op["on"].as_bool().unwrap();
                if let (false, Some(w)) = (g.shut, g.waker.take()) {
                    w.wake();
                }
            }
            "env" => {
                let (m, b) = (op["m"].as_str().unwrap(), op["b"].as_str().unwrap());
                {
                    let mut e = self.env.lock();
                    e.m = m.into();
                    e.b = b.into();
                }
                if m == "gone" {
                    if let Some(h) = self.marshal.take() {
                        h.abort();
                        sleep(Duration::from_millis(1)).await;
                    }
                } else if self.marshal.is_none() {
                    let ep = format!("marshal-{}", self.env.lock().name);
                    self.marshal = Some(listener(self.env.clone(), ep, true).await);
                }
            }
            "push" => {
                let id = op["id"].as_i64().unwrap();
                let c = self.env.lock().ses[op["j"].as_u64().unwrap() as usize - 1].conn.clone();
                if let Some(c) = c {
                    let b = if id < 0 {
                        Bytes::from_unchecked(vec![0xff; 16])
                    } else {
                        raw(Message::Direct(Direct { recipient: key_bytes(1), message: payload(id as u64, 0, 0) }))
                    };
                    let _ = c.send_message_raw(b).await;
                }
            }
            "drop" => {
                let j = op["j"].as_u64().unwrap() as usize - 1;
                let (c, r) = {
                    let mut e = self.env.lock();
                    e.ses[j].closed = true;
                    (e.ses[j].conn.take(), e.ses[j].reader.take())
                };
                if let Some(c) = c {
                    let _ = tokio::time::timeout(Duration::from_millis(1), c.soft_close()).await;
                    if let Some(r) = r {
                        r.abort();
                    }
                    tokio::task::yield_now().await;
                    drop(c);
                }
            }
            "answer" => {
                let how = op["how"].as_str().unwrap().to_string();
                let e = self.env.lock();
                if let Some(a) = e.att.last() {
                    if let Some(tx) = a.m_answer.as_ref().or(a.b_answer.as_ref()) {
                        let _ = tx.send(how);
                    }
                }
            }
            "adv" => {
                self.clock += op["s"].as_u64().unwrap();
                let t0 = self.env.lock().t0;
                sleep_until(t0 + Duration::from_millis(self.clock * 1000)).await;
            }
            "q" => {
                sleep(Duration::from_millis(3)).await;
                let mut e = self.env.lock();
                let att: Vec<Value> = e
                    .att
                    .iter()
                    .map(|a| {
                        let end = a.ended.or(match (a.ph, a.m_closed, a.b_closed) {
                            ("m", Some(t), _) => Some(t),
                            ("b", Some(t), Some(u)) => Some(t.max(u)),
                            _ => None,
                        });
                        json!({"start": a.start, "end": end.map_or(-1, |t| t as i64), "ph": a.ph, "auth": a.auth})
                    })
                    .collect();
                let ses: Vec<Value> = e
                    .ses
                    .iter_mut()
                    .map(|s| json!({"topics": s.topics, "closed": s.closed, "got": std::mem::take(&mut s.got)}))
                    .collect();
                op = json!({"op": "q", "att": att, "ses": ses, "stray": e.stray, "now": e.now(), "closed": self.client.is_closed(),
                    "ret": self.ret.lock().iter().map(|(r, id)| json!({"r": r, "id": id})).collect::<Vec<_>>()});
            }
            x => panic!("unknown op {x}"),
        }
        self.ev.push(op);
    }

    fn finish(mut self) -> Value {
        for c in &self.calls {
            c.task.abort();
        }
        if let Some(m) = &self.marshal {
            m.abort();
        }
        self.broker.abort();
        json!({"ev": std::mem::take(&mut self.ev)})
    }
}

pub async fn run_ops(ops: &[Value]) -> Value {
    let mut w = World::new(ops[0].clone()).await;
    for op in &ops[1..] {
        w.apply(op.clone()).await;
    }
    w.finish()
}

pub async fn random_trace(seed: u64, len: usize) -> Value {
    let mut r = StdRng::seed_from_u64(seed);
    let some = |r: &mut StdRng| -> Vec<u64> { 
        // mostly few, so that they meet; now and then many, and some twice
        let mut ts: Vec<u64> = if r.gen_bool(0.1) { (0..256u64).filter(|_| r.gen_bool(0.1)).collect() } else { vec![] };
        ts.extend((0..4u64).filter(|_| r.gen_bool(0.4)));
        if r.gen_bool(0.1) {
            ts.extend_from_within(..);
        }
        ts
    };
    let subs = some(&mut r);
    let mut w = World::new(json!({"op": "init", "subs": subs})).await;
    let mut id = 1;
    let q = || json!({"op": "q"});
    for _ in 0..len {
        let pending: Vec<usize> = (0..w.calls.len()).filter(|n| !w.calls[*n].task.is_finished()).collect();
        let live: Vec<usize> = {
            let e = w.env.lock();
            (0..e.ses.len()).filter(|j| !e.ses[*j].closed).collect()
        };
        match r.gen_range(0..20) {
            0 | 1 => {
                // how marshal and broker behave from now on
                let how = |r: &mut StdRng| *["ok", "ok", "ok", "refuse", "wrong", "garbage", "drop", "silent", "silent", "gone"].choose(r).unwrap();
                let (m, b) = (how(&mut r), if r.gen_bool(0.6) { "ok" } else { how(&mut r) });
                w.apply(json!({"op": "env", "m": m, "b": b})).await;
            }
            2 | 3 => {
                let s = *[1u64, 1, 3, 7, 15, 30].choose(&mut r).unwrap();
                w.apply(json!({"op": "adv", "s": s})).await;
            }
            4 | 5 if !live.is_empty() => {
                w.apply(json!({"op": "drop", "j": live[r.gen_range(0..live.len())] + 1})).await;
            }
            6..=8 if !live.is_empty() => {
                for _ in 0..r.gen_range(1..=4) {
                    id += 1;
                    let v = if r.gen_bool(0.06) { -1 } else { id as i64 };
                    w.apply(json!({"op": "push", "j": live[r.gen_range(0..live.len())] + 1, "id": v})).await;
                }
                if r.gen_bool(0.2) {
                    w.apply(json!({"op": "drop", "j": live[r.gen_range(0..live.len())] + 1})).await;
                }
            }
            9 if !pending.is_empty() => {
                w.apply(json!({"op": "cancel", "n": pending[r.gen_range(0..pending.len())] + 1})).await;
            }
            10 | 11 if !pending.is_empty() => {
                let n = pending[r.gen_range(0..pending.len())];
                let shut = w.calls[n].gate.lock().shut;
                // one that waits for the reconnection keeps it from everybody else: let that happen only before a close
                let last = live.is_empty() && !shut;
                if !last || r.gen_bool(0.15) {
                    w.apply(json!({"op": "park", "n": n + 1, "on": !shut})).await;
                }
                if last && w.calls[n].gate.lock().shut {
                    w.apply(json!({"op": "call", "k": "close", "id": 0, "topics": []})).await;
                }
            }
            12 => {
                let how = *["ok", "ok", "ok", "refuse", "wrong", "garbage", "drop"].choose(&mut r).unwrap();
                let owed = w.env.lock().att.last().is_some_and(|a| a.m_answer.is_some() || a.b_answer.is_some());
                if owed {
                    w.apply(json!({"op": "answer", "how": how})).await;
                }
            }
            _ => {
                for _ in 0..r.gen_range(1..=3) {
                    id += 1;
                    let k = *["send", "send", "send", "recv", "recv", "recv", "sub", "sub", "unsub", "init", "flush"].choose(&mut r).unwrap();
                    let k = if r.gen_bool(0.02) { "close" } else { k };
                    let topics = if k == "sub" || k == "unsub" { some(&mut r) } else { vec![] };
                    w.apply(json!({"op": "call", "k": k, "id": id, "topics": topics})).await;
                }
            }
        }
        w.apply(q()).await;
    }
    w.finish()
}
