//! The whole system: real brokers, a real marshal and real clients on a network whose links can be cut and are slow.

use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
    time::Duration,
};

use cdn_broker::{Broker, Config};
use cdn_client::Client;
use cdn_proto::message::Message;
use parking_lot::Mutex;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use tokio::{
    task::{AbortHandle, JoinHandle},
    time::{sleep, Instant},
};

use crate::{
    common::*,
    net::{drop_net, net, Kind, State},
};

static WORLD: AtomicU64 = AtomicU64::new(0);

struct Inst {
    key: u64,
    client: Arc<Client<Conn>>,
    got: Arc<Mutex<Vec<Value>>>,
    /// receives until stopped or replaced
    reader: AbortHandle,
    on: bool,
}

struct World {
    name: String,
    disc: Arc<Mutex<DiscState>>,
    net: Arc<Mutex<State>>,
    sent: Arc<Mutex<HashMap<u64, Vec<u8>>>>,
    ret: Arc<Mutex<Vec<Value>>>,
    insts: Vec<Inst>,
    brokers: Vec<Option<JoinHandle<()>>>,
    marshal: JoinHandle<()>,
    calls: Vec<AbortHandle>,
    settle: u64,
    t0: Instant,
    ev: Vec<Value>,
    dead: bool,
}

fn content(m: &Message) -> Option<(&'static str, Vec<u8>)> {
    match m {
        Message::Direct(d) => Some(("d", d.message.clone())),
        Message::Broadcast(b) => Some(("b", b.message.clone())),
        _ => None,
    }
}

impl World {
    async fn new(init: Value) -> Self {
        let name = format!("net{}", WORLD.fetch_add(1, Ordering::SeqCst));
        let disc = disc(&name);
        disc.lock().registers = true;
        let net = net(&name);
        let latency = init["latency"].as_u64().unwrap();
        net.lock().latency = latency;
        let marshal = cdn_marshal::Marshal::<Run>::new(cdn_marshal::Config {
            bind_endpoint: format!("marshal-{name}"),
            discovery_endpoint: name.clone(),
            ca_cert_path: None,
            ca_key_path: None,
            metrics_bind_endpoint: None,
            global_memory_pool_size: None,
        })
        .await
        .expect("marshal");
        let marshal = tokio::spawn(async move {
            let _ = marshal.start().await;
        });
        let n = init["n"].as_u64().unwrap() as usize;
        World {
            disc,
            net,
            sent: Arc::default(),
            ret: Arc::default(),
            insts: vec![],
            brokers: (0..n).map(|_| None).collect(),
            marshal,
            calls: vec![],
            settle: 5 + 14 * latency,
            t0: Instant::now(),
            ev: vec![init],
            name,
            dead: false,
        }
    }

    fn now(&self) -> u64 {
        self.t0.elapsed().as_millis() as u64
    }

    /// Broker `n` starts 3n seconds into some ten: no two heartbeats are at the same time.
    async fn up(&mut self, n: u64) {
        let at = 3000 * n;
        let now = self.now();
        let wait = (10_000 + at - now % 10_000) % 10_000;
        sleep(Duration::from_millis(wait)).await;
        let id = bid(&self.name, n);
        let hooks = Arc::new(Mutex::new(HookLog::default()));
        let broker = Broker::<Run>::new(Config {
            public_advertise_endpoint: id.public_advertise_endpoint.clone(),
            public_bind_endpoint: id.public_advertise_endpoint.clone(),
            private_advertise_endpoint: id.private_advertise_endpoint.clone(),
            private_bind_endpoint: id.private_advertise_endpoint.clone(),
            metrics_bind_endpoint: None,
            discovery_endpoint: self.name.clone(),
            keypair: keypair(BROKER_KEY),
            ca_cert_path: None,
            ca_key_path: None,
            global_memory_pool_size: None,
            user_message_hook: Hook::new("u", hooks.clone()),
            broker_message_hook: Hook::new("b", hooks),
        })
        .await
        .expect("broker");
        self.brokers[n as usize - 1] = Some(tokio::spawn(async move {
            let _ = broker.start().await;
        }));
        sleep(Duration::from_millis(1)).await;
    }

    async fn call(&mut self, op: &Value) {
        let inst = &self.insts[op["i"].as_u64().unwrap() as usize - 1];
        let client = inst.client.clone();
        let (id, ret) = (op["id"].as_u64().unwrap(), self.ret.clone());
        let op = op.clone();
        if let Some(size) = op["size"].as_u64() {
            self.sent.lock().insert(id, payload(id, 0, size as usize));
        }
        let mut h = tokio::spawn(async move {
            let topics: Vec<u8> = u64s(&op["topics"]).iter().map(|t| *t as u8).collect();
            let what = payload(id, 0, op["size"].as_u64().unwrap_or(0) as usize);
            let r = match op["op"].as_str().unwrap() {
                "direct" => client.send_direct_message(&ToyKey(op["to"].as_u64().unwrap() as u8), what).await,
                "bcast" => client.send_broadcast_message(topics, what).await,
                "sub" => client.subscribe(topics).await,
                _ => client.unsubscribe(topics).await,
            };
            ret.lock().push(json!([id, r.is_ok()]));
        });
        self.calls.push(h.abort_handle());
        // one call at a time if they don't take long
        let _ = tokio::time::timeout(Duration::from_millis(2), &mut h).await;
    }

    async fn apply(&mut self, mut op: Value) {
        op["now"] = json!(self.now());
        match op["op"].as_str().unwrap() {
            "up" => self.up(op["b"].as_u64().unwrap()).await,
            "crash" => {
                let n = op["b"].as_u64().unwrap();
                if let Some(b) = self.brokers[n as usize - 1].take() {
                    b.abort();
                }
                let id = bid(&self.name, n);
                let mut s = self.net.lock();
                s.unlisten(&id.public_advertise_endpoint);
                s.unlisten(&id.private_advertise_endpoint);
                s.cut(|l| l.kind != Kind::Marshal && (l.to == n || (l.kind == Kind::Broker && l.from == n)));
            }
            "start" => {
                let k = op["k"].as_u64().unwrap();
                for i in &mut self.insts {
                    if i.key == k && i.on {
                        // whoever had this key is not there to reconnect
                        i.reader.abort();
                        i.on = false;
                    }
                }
                let client = Arc::new(Client::<Conn>::new(cdn_client::Config {
                    endpoint: format!("marshal-{}", self.name),
                    use_local_authority: true,
                    keypair: keypair(k as u8),
                    subscribed_topics: u64s(&op["topics"]).iter().map(|t| *t as u8).collect(),
                }));
                let got: Arc<Mutex<Vec<Value>>> = Arc::default();
                let (c, g, sent) = (client.clone(), got.clone(), self.sent.clone());
                let reader = tokio::spawn(async move {
                    loop {
                        match c.receive_message().await {
                            Ok(m) => {
                                let v = content(&m).map_or(json!(["?", 0]), |(k, raw)| {
                                    let id = unpayload(&raw).0;
                                    let ok = sent.lock().get(&id).is_some_and(|s| *s == raw);
                                    json!([k, if ok { id } else { 0 }])
                                });
                                g.lock().push(v);
                            }
                            Err(_) => sleep(Duration::from_millis(1)).await,
                        }
                    }
                })
                .abort_handle();
                self.insts.push(Inst { key: k, client, got, reader, on: true });
                op["i"] = json!(self.insts.len());
            }
            "stop" => {
                let i = &mut self.insts[op["i"].as_u64().unwrap() as usize - 1];
                i.reader.abort();
                i.on = false;
                let c = i.client.clone();
                tokio::spawn(async move { c.close().await });
            }
            "kick" => {
                let k = self.insts[op["i"].as_u64().unwrap() as usize - 1].key;
                self.net.lock().cut(|l| l.kind == Kind::User && l.from == k);
            }
            "cut" => {
                let (a, b) = (op["a"].as_u64().unwrap(), op["b"].as_u64().unwrap());
                self.net.lock().cut(|l| l.kind == Kind::Broker && ((l.from, l.to) == (a, b) || (l.from, l.to) == (b, a)));
            }
            "adv" => sleep(Duration::from_millis(op["ms"].as_u64().unwrap())).await,
            "direct" | "bcast" | "sub" | "unsub" => self.call(&op).await,
            "q" => {
                sleep(Duration::from_millis(self.settle)).await;
                self.dead = self.marshal.is_finished() || self.brokers.iter().flatten().any(|b| b.is_finished());
                let got: Vec<Value> = self.insts.iter().map(|i| json!(std::mem::take(&mut *i.got.lock()))).collect();
                let s = self.net.lock();
                let links = |k: Kind| -> Vec<Value> {
                    s.links.iter().filter(|l| l.kind == k && l.there && (k != Kind::Broker || l.here)).map(|l| json!([l.from, l.to])).collect()
                };
                let (user, broker) = (links(Kind::User), links(Kind::Broker));
                drop(s);
                let d = self.disc.lock();
                let load: Vec<Value> = d.brokers.iter().map(|b| json!([b, d.load[b], d.seen[b].duration_since(self.t0).as_millis() as u64])).collect();
                let ret = std::mem::take(&mut *self.ret.lock());
                op = json!({"op": "q", "got": got, "ret": ret, "user": user, "broker": broker, "load": load, "dead": self.dead});
            }
            x => panic!("unknown op {x}"),
        }
        if !op["id"].is_u64() {
            op["now"] = json!(self.now());
        }
        self.ev.push(op);
    }

    fn finish(mut self) -> Value {
        self.marshal.abort();
        self.brokers.iter().flatten().for_each(|b| b.abort());
        for i in &self.insts {
            i.reader.abort();
        }
        self.calls.iter().for_each(|c| c.abort());
        drop_disc(&self.name);
        drop_net(&self.name);
        json!({"ev": std::mem::take(&mut self.ev)})
    }
}

pub async fn run_ops(ops: &[Value]) -> Value {
    let mut w = World::new(ops[0].clone()).await;
    for op in &ops[1..] {
        w.apply(op.clone()).await;
        if w.dead {
            break;
        }
    }
    w.finish()
}

pub async fn random_trace(seed: u64, len: usize) -> Value {
    let mut r = StdRng::seed_from_u64(seed);
    let some = |r: &mut StdRng, p: f64| -> Vec<u64> { (0..4u64).filter(|_| r.gen_bool(p)).collect() };
    let n = r.gen_range(1..=3u64);
    let latency = *[0u64, 0, 1, 5, 20].choose(&mut r).unwrap();
    let mut w = World::new(json!({"op": "init", "n": n, "latency": latency})).await;
    let q = || json!({"op": "q"});
    for b in 1..=n {
        w.apply(json!({"op": "up", "b": b})).await;
    }
    w.apply(json!({"op": "adv", "ms": 22_000 + r.gen_range(0..3000)})).await;
    w.apply(q()).await;
    let mut id = 0;
    for step in 0..len {
        let on: Vec<usize> = (0..w.insts.len()).filter(|i| w.insts[*i].on).collect();
        let upb: Vec<u64> = (1..=n).filter(|b| w.brokers[*b as usize - 1].is_some()).collect();
        let down: Vec<u64> = (1..=n).filter(|b| w.brokers[*b as usize - 1].is_none()).collect();
        // how long what happens now takes to settle
        let mut calm = 0;
        match if step < 2 { 0 } else { r.gen_range(0..16) } {
            0..=2 => {
                let k = r.gen_range(1..=5u64);
                let topics = some(&mut r, 0.4);
                w.apply(json!({"op": "start", "k": k, "topics": topics})).await;
                calm = 21_000;
            }
            3 if !on.is_empty() => {
                let i = on[r.gen_range(0..on.len())] + 1;
                w.apply(json!({"op": if r.gen_bool(0.4) { "stop" } else { "kick" }, "i": i})).await;
                calm = 21_000;
            }
            4 if upb.len() > 1 => {
                let ab: Vec<u64> = upb.choose_multiple(&mut r, 2).copied().collect();
                w.apply(json!({"op": "cut", "a": ab[0], "b": ab[1]})).await;
                calm = 21_000;
            }
            5 if upb.len() > 1 && r.gen_bool(0.6) => {
                let b = upb[r.gen_range(0..upb.len())];
                w.apply(json!({"op": "crash", "b": b})).await;
                calm = 90_000;
            }
            5 | 6 if !down.is_empty() => {
                let b = down[r.gen_range(0..down.len())];
                w.apply(json!({"op": "up", "b": b})).await;
                calm = 31_000;
            }
            7 | 8 if !on.is_empty() => {
                for _ in 0..r.gen_range(1..=2) {
                    id += 1;
                    let i = on[r.gen_range(0..on.len())] + 1;
                    let topics = some(&mut r, 0.5);
                    w.apply(json!({"op": if r.gen_bool(0.6) { "sub" } else { "unsub" }, "i": i, "topics": topics, "id": id})).await;
                }
                calm = 21_000;
            }
            _ => {}
        }
        w.apply(q()).await;
        if w.dead {
            break;
        }
        if calm > 0 {
            let ms = match r.gen_range(0..4) {
                0 => 0,
                1 => r.gen_range(1..12_000),
                _ => calm + r.gen_range(0..5000),
            };
            w.apply(json!({"op": "adv", "ms": ms})).await;
            w.apply(q()).await;
        }
        let on: Vec<usize> = (0..w.insts.len()).filter(|i| w.insts[*i].on).collect();
        if !on.is_empty() {
            for _ in 0..r.gen_range(1..=6) {
                id += 1;
                let i = on[r.gen_range(0..on.len())] + 1;
                let size = *[9u64, 20, 200, 2000].choose(&mut r).unwrap();
                if r.gen_bool(0.5) {
                    let to = if r.gen_bool(0.85) { w.insts[on[r.gen_range(0..on.len())]].key } else { r.gen_range(1..=5) };
                    w.apply(json!({"op": "direct", "i": i, "to": to, "id": id, "size": size})).await;
                } else {
                    let mut topics = some(&mut r, 0.4);
                    if topics.is_empty() {
                        topics.push(r.gen_range(0..4));
                    }
                    w.apply(json!({"op": "bcast", "i": i, "topics": topics, "id": id, "size": size})).await;
                }
            }
            w.apply(q()).await;
            if w.dead {
                break;
            }
        }
    }
    w.finish()
}
