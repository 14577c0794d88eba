//! One real marshal; the harness plays the users and the discovery service.

use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
    time::Duration,
};

use cdn_marshal::{Config, Marshal};
use cdn_proto::connection::{
    limiter::Limiter,
    protocols::{memory::Memory, Protocol as _},
    Bytes,
};
use parking_lot::Mutex;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use tokio::{
    task::JoinHandle,
    time::{sleep, sleep_until, Instant},
};

use crate::{broker::HConn, common::*, net::{connect_stuck, fail_accepts}};

static WORLD: AtomicU64 = AtomicU64::new(0);

struct World {
    name: String,
    maps: Arc<Maps>,
    disc: Arc<Mutex<DiscState>>,
    sent: Arc<Mutex<HashMap<u64, Vec<u8>>>>,
    conns: Vec<HConn>,
    marshal: JoinHandle<()>,
    t0: Instant,
    clock: u64,
    ev: Vec<Value>,
    dead: bool,
}

impl World {
    async fn new() -> Self {
        let name = format!("m{}", WORLD.fetch_add(1, Ordering::SeqCst));
        let disc = disc(&name);
        let marshal = Marshal::<Run>::new(Config {
            bind_endpoint: format!("marshal-{name}"),
            discovery_endpoint: name.clone(),
            ca_cert_path: None,
            ca_key_path: None,
            metrics_bind_endpoint: None,
            global_memory_pool_size: None,
        })
        .await
        .expect("marshal");
        let marshal = tokio::spawn(async move {
            let _ = marshal.start().await;
        });
        sleep(Duration::from_millis(1)).await;
        World {
            maps: Arc::new(Maps::new(&name, &[1])),
            name,
            disc,
            sent: Arc::default(),
            conns: vec![],
            marshal,
            t0: Instant::now(),
            clock: 0,
            ev: vec![json!({"op": "init"})],
            dead: false,
        }
    }

    async fn apply(&mut self, mut op: Value) {
        match op["op"].as_str().unwrap() {
            "open" => {
                let conn = Memory::connect(&format!("marshal-{}", self.name), true, Limiter::none()).await.expect("connect");
                self.conns.push(HConn::new(conn, self.maps.clone(), self.sent.clone()));
                op["c"] = json!(self.conns.len());
            }
            "send" => {
                let c = op["c"].as_u64().unwrap() as usize;
                let raw = encode(&self.maps, &self.name, &op["m"]);
                if let Some(conn) = &self.conns[c - 1].conn {
                    let _ = conn.send_message_raw(Bytes::from_unchecked(raw)).await;
                }
            }
            "drop" => {
                let c = op["c"].as_u64().unwrap() as usize;
                self.conns[c - 1].drop_it().await;
            }
            "svc" => {
                let mut d = self.disc.lock();
                d.brokers.clear();
                d.load.clear();
                for b in op["brokers"].as_array().unwrap() {
                    d.brokers.insert(b[0].as_u64().unwrap());
                    d.load.insert(b[0].as_u64().unwrap(), b[1].as_u64().unwrap());
                }
                d.whitelist = op["wlset"].as_bool().unwrap().then(|| u64s(&op["wl"]).into_iter().collect());
                d.wl_fail = op["wlfail"].as_bool().unwrap();
                d.least_fail = op["leastfail"].as_bool().unwrap();
                d.issue_fail = op["issuefail"].as_bool().unwrap();
                d.delay_ms = op["delay"].as_u64().unwrap() * 1000;
            }
            "stuck" => connect_stuck(&format!("marshal-{}", self.name)),
            "adv" => {
                self.clock += op["s"].as_u64().unwrap();
                fail_accepts(&format!("marshal-{}", self.name), op["fails"].as_u64().unwrap_or(0));
                sleep_until(self.t0 + Duration::from_secs(self.clock)).await;
            }
            "q" => {
                sleep(Duration::from_millis(3)).await;
                self.dead = self.marshal.is_finished();
                op = json!({
                    "op": "q",
                    "outs": self.conns.iter().map(|c| json!(std::mem::take(&mut *c.rx.lock()))).collect::<Vec<_>>(),
                    "closed": self.conns.iter().map(|c| c.conn.is_none() || c.closed.load(Ordering::SeqCst)).collect::<Vec<_>>(),
                    "issued": std::mem::take(&mut self.disc.lock().issued),
                    "dead": self.dead,
                });
            }
            x => panic!("unknown op {x}"),
        }
        self.ev.push(op);
    }

    fn finish(mut self) -> Value {
        self.marshal.abort();
        drop_disc(&self.name);
        json!({"ev": std::mem::take(&mut self.ev)})
    }
}

pub async fn run_ops(ops: &[Value]) -> Value {
    let mut w = World::new().await;
    for op in &ops[1..] {
        w.apply(op.clone()).await;
        if w.dead {
            break;
        }
    }
    w.finish()
}

fn svc(r: &mut StdRng, delay: bool) -> Value {
    let brokers: Vec<Value> = (1..=4u64).filter(|_| r.gen_bool(0.6)).map(|b| json!([b, b % 3])).collect();
    let brokers: Vec<Value> = brokers.iter().map(|b| json!([b[0], r.gen_range(0..4)])).collect();
    json!({"op": "svc", "brokers": brokers, "wlset": r.gen_bool(0.5),
        "wl": (1..=4u64).filter(|_| r.gen_bool(0.6)).collect::<Vec<_>>(),
        "wlfail": r.gen_bool(0.08), "leastfail": r.gen_bool(0.08), "issuefail": r.gen_bool(0.08),
        "delay": if delay { *[1u64, 2, 2, 3, 7].choose(r).unwrap() } else { 0 }})
}

fn first(r: &mut StdRng) -> Value {
    let k = r.gen_range(1..=4u64);
    let other = k % 4 + 1;
    let key = |age: i64| json!({"t": "authkey", "k": k, "sk": k, "ns": 0, "age": age});
    let with = |f: &str| {
        let mut m = key(0);
        m[f] = json!(true);
        m
    };
    if r.gen_bool(0.5) {
        return key(*[0i64, 0, 0, 1, 3, 4, 5].choose(r).unwrap());
    }
    match r.gen_range(0..17) {
        0 => key(6),
        1 => key(7),
        2 => key(100_000),
        3 => key(-100),
        4 => key(*[-1i64, -1, -4, -1_000_000].choose(r).unwrap()),
        5 => json!({"t": "authkey", "k": k, "sk": other, "ns": 0, "age": 0}),
        6 => json!({"t": "authkey", "k": k, "sk": k, "ns": 1, "age": 0}),
        7 => with("tamper"),
        8 => with("badkey"),
        9 => with("nosig"),
        10 => json!({"t": "garbage", "id": r.gen_range(0..4)}),
        11 => json!({"t": "sub", "topics": [0]}),
        12 => json!({"t": "permit", "p": r.gen_range(0..200)}),
        13 => json!({"t": "direct", "to": k, "id": 1, "h": 0, "size": 20}),
        14 => json!({"t": "authresp", "p": 1, "ctx": 1}),
        15 => with("pad"),
        _ => key(6),
    }
}

pub async fn random_trace(seed: u64, len: usize) -> Value {
    let mut r = StdRng::seed_from_u64(seed);
    let mut w = World::new().await;
    let s = svc(&mut r, false);
    w.apply(s).await;
    let mut silent: Vec<usize> = vec![];
    for _ in 0..len {
        match r.gen_range(0..10) {
            0 | 1 => {
                let s = svc(&mut r, false);
                w.apply(s).await;
            }
            2 => {
                // even numbers of seconds: never just when a connection's time is up
                let s = 2 * r.gen_range(1..=3u64);
                let fails = if r.gen_bool(0.4) { r.gen_range(0..3) } else { 0 };
                w.apply(json!({"op": "adv", "s": s, "fails": fails})).await;
            }
            3 => {
                // slow calls: everything ends before anything else happens
                w.apply(json!({"op": "q"})).await;
                let s = svc(&mut r, true);
                w.apply(s).await;
                for _ in 0..r.gen_range(1..=2) {
                    w.apply(json!({"op": "open"})).await;
                    let c = w.conns.len();
                    let m = first(&mut r);
                    w.apply(json!({"op": "send", "c": c, "m": m})).await;
                }
                w.apply(json!({"op": "adv", "s": 26})).await;
                w.apply(json!({"op": "q"})).await;
                let s = svc(&mut r, false);
                w.apply(s).await;
            }
            4 => {
                w.apply(json!({"op": "open"})).await;
                silent.push(w.conns.len());
            }
            5 if !silent.is_empty() => {
                let c = silent.swap_remove(r.gen_range(0..silent.len()));
                if r.gen_bool(0.7) {
                    let m = first(&mut r);
                    w.apply(json!({"op": "send", "c": c, "m": m})).await;
                } else {
                    w.apply(json!({"op": "drop", "c": c})).await;
                }
            }
            _ => {
                if r.gen_bool(0.1) {
                    w.apply(json!({"op": "stuck"})).await;
                }
                for _ in 0..r.gen_range(1..=3) {
                    w.apply(json!({"op": "open"})).await;
                    let c = w.conns.len();
                    let m = first(&mut r);
                    w.apply(json!({"op": "send", "c": c, "m": m})).await;
                    if r.gen_bool(0.15) {
                        let m = first(&mut r);
                        w.apply(json!({"op": "send", "c": c, "m": m})).await;
                    }
                }
            }
        }
        w.apply(json!({"op": "q"})).await;
        if w.dead {
            break;
        }
    }
    w.finish()
}
