//! The discovery clients themselves: the embedded one on a scratch file, the Redis one against a stand-in server;
//! the wall clock is the harness's. Calls come one after the other or several at once.

use std::{collections::HashMap, time::Duration};

use cdn_proto::{
    connection::UserPublicKey,
    discovery::{embedded::Embedded, redis::Redis, BrokerIdentifier, DiscoveryClient},
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};

use crate::{clock, redis::Server};

/// Brokers of which two share each endpoint; 1 and 3 begin with the same characters.
pub fn ident(n: u64) -> BrokerIdentifier {
    let (a, b) = match n {
        1 => ("h:1", "p:1"),
        2 => ("h:1", "p:2"),
        3 => ("h:10", "p:1"),
        4 => ("0h:1", "p:1"),
        _ => ("'h':%", "p_\"1"),
    };
    BrokerIdentifier { public_advertise_endpoint: a.into(), private_advertise_endpoint: b.into() }
}
const BROKERS: u64 = 5;

fn name(b: &BrokerIdentifier) -> u64 {
    (1..=BROKERS).find(|n| ident(*n) == *b).unwrap_or(999)
}

/// Keys: any bytes.
fn key(n: u64) -> Vec<u8> {
    match n {
        1 => b"key".to_vec(),
        2 => b"key\0".to_vec(),
        3 => b"k'e\"y; --".to_vec(),
        4 => vec![0xff, 0, 0x80, b'\r', b'\n'],
        n => format!("K{n}").into_bytes(),
    }
}
fn keyno(k: &[u8]) -> u64 {
    (1..=60).find(|n| key(*n) == k).unwrap_or(999)
}

/// What a call that panicked gives.
fn panicked(op: &Value) -> Value {
    if op["op"] == "others" {
        json!([997])
    } else {
        json!(997)
    }
}

struct World<D> {
    path: String,
    /// by broker; 0: a marshal's, which is no broker
    clients: HashMap<u64, D>,
    permits: Vec<u64>,
}

impl<D: DiscoveryClient> World<D> {
    fn by(op: &Value) -> u64 {
        match op["op"].as_str().unwrap() {
            "hb" | "others" => op["b"].as_u64().unwrap(),
            _ => op["by"].as_u64().unwrap_or(0),
        }
    }
    async fn need(&mut self, op: &Value) {
        let n = Self::by(op);
        if !self.clients.contains_key(&n) {
            self.clients.insert(n, D::new(self.path.clone(), (n > 0).then(|| ident(n))).await.unwrap());
        }
    }
    fn number(&self, p: u64) -> u64 {
        match p {
            0 => 0,
            p if p <= self.permits.len() as u64 => self.permits[p as usize - 1],
            // numbers nobody got: one off, too large for 32 bits but the same in the lower 32, the largest
            901 => self.permits.first().map_or(7, |p| p ^ 1),
            902 => self.permits.first().map_or(7, |p| p ^ (1 << 32)),
            903 => u64::MAX,
            _ => 1,
        }
    }
    fn call(&self, op: &Value) -> impl std::future::Future<Output = (Value, Option<u64>)> + Send {
        let u = |k: &str| op[k].as_u64().unwrap_or(0);
        let (b, n, k, exp) = (u("b"), u("n"), u("k"), Duration::from_secs(u("exp")));
        let p = self.number(u("p"));
        let l: Vec<UserPublicKey> = op["l"].as_array().map_or(vec![], |l| l.iter().map(|k| key(k.as_u64().unwrap()).into()).collect());
        let what = op["op"].as_str().unwrap().to_string();
        let mut d = self.clients[&Self::by(op)].clone();
        async move {
            let mut permit = None;
            let ret = match what.as_str() {
                "hb" => json!(u64::from(d.perform_heartbeat(n, exp).await.is_ok())),
                "least" => json!(d.get_with_least_connections().await.map_or(0, |b| name(&b))),
                "others" => match d.get_other_brokers().await {
                    Ok(l) => {
                        let mut v: Vec<u64> = l.iter().map(name).collect();
                        v.sort_unstable();
                        json!(v)
                    }
                    Err(_) => json!([998]),
                },
                "issue" => {
                    permit = d.issue_permit(&ident(b), exp, key(k)).await.ok();
                    json!(0)
                }
                "redeem" => json!(d.validate_permit(&ident(b), p).await.map_or(0, |k| k.map_or(0, |k| keyno(&k)))),
                "setwl" => json!(u64::from(d.set_whitelist(l).await.is_ok())),
                "checkwl" => json!(d.check_whitelist(&key(k).into()).await.map_or(998, u64::from)),
                o => panic!("{o}"),
            };
            (ret, permit)
        }
    }
    fn number_of(&mut self, permit: Option<u64>) -> u64 {
        let Some(p) = permit else { return 0 };
        if let Some(i) = self.permits.iter().position(|q| *q == p) {
            return i as u64 + 1;
        }
        self.permits.push(p);
        self.permits.len() as u64
    }
    async fn run(&mut self, ops: &[Value]) -> Value {
        let mut ev = vec![ops[0].clone()];
        clock::freeze(0);
        for op in &ops[1..] {
            let mut e = op.clone();
            match op["op"].as_str().unwrap() {
                "adv" => clock::freeze(clock::now() + op["s"].as_i64().unwrap()),
                "reopen" => self.clients.clear(),
                "conc" => {
                    for o in op["ops"].as_array().unwrap() {
                        self.need(o).await;
                    }
                    let calls: Vec<_> = op["ops"].as_array().unwrap().iter().map(|o| tokio::spawn(self.call(o))).collect();
                    for (i, c) in calls.into_iter().enumerate() {
                        let (ret, permit) = c.await.unwrap_or((panicked(&e["ops"][i]), None));
                        e["ops"][i]["ret"] = if e["ops"][i]["op"] == "issue" { json!(self.number_of(permit)) } else { ret };
                    }
                }
                o => {
                    self.need(op).await;
                    let (ret, permit) = tokio::spawn(self.call(op)).await.unwrap_or((panicked(op), None));
                    e["ret"] = if o == "issue" { json!(self.number_of(permit)) } else { ret };
                }
            }
            ev.push(e);
        }
        json!({ "ev": ev })
    }
}

pub async fn run_ops(ops: &[Value]) -> Value {
    if ops[0]["kind"] == "redis" {
        let s = Server::start().await;
        World::<Redis> { path: s.url.clone(), clients: HashMap::new(), permits: vec![] }.run(ops).await
    } else {
        static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = COUNT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm".into() } else { std::env::temp_dir() };
        let path = base.join(format!("pushcdn-verif-{}-{n}.sqlite", std::process::id()));
        let mut w = World::<Embedded> { path: path.to_str().unwrap().into(), clients: HashMap::new(), permits: vec![] };
        let t = w.run(ops).await;
        drop(w);
        for end in ["", "-journal", "-wal", "-shm"] {
            let _ = std::fs::remove_file(format!("{}{end}", path.display()));
        }
        t
    }
}

pub fn random_ops(seed: u64, len: usize, profile: &str) -> Vec<Value> {
    let mut r = StdRng::seed_from_u64(seed);
    let kind = if r.gen_bool(0.5) { "redis" } else { "embedded" };
    let mut ops = vec![json!({"op": "init", "kind": kind})];
    let nb = r.gen_range(1..=BROKERS);
    let mut bs: Vec<u64> = (1..=BROKERS).collect();
    bs.shuffle(&mut r);
    bs.truncate(nb as usize);
    let nk = r.gen_range(1..=5);
    let (mut clock, mut permits) = (0u64, vec![]);
    let w: [u32; 8] = match profile {
        // hb least others issue redeem setwl checkwl adv
        "permits" => [2, 0, 0, 6, 9, 0, 0, 2],
        "wl" => [0, 0, 0, 0, 0, 4, 9, 1],
        "load" => [6, 8, 0, 6, 4, 0, 0, 3],
        "list" => [6, 1, 9, 0, 0, 0, 0, 4],
        _ => [4, 4, 4, 4, 4, 2, 4, 3],
    };
    let total: u32 = w.iter().sum();
    let exp = |r: &mut StdRng| *[10u64, 31, 61, 1].choose(r).unwrap();
    for _ in 0..len {
        let b = *bs.choose(&mut r).unwrap();
        let k = r.gen_range(1..=nk);
        let any = |r: &mut StdRng, permits: &Vec<u64>| -> (u64, u64) {
            if permits.is_empty() || r.gen_bool(0.12) {
                (*[0u64, 1, 901, 902, 903, 904].choose(r).unwrap(), b)
            } else {
                let i = if r.gen_bool(0.5) { permits.len() - 1 } else { r.gen_range(0..permits.len()) };
                (i as u64 + 1, if r.gen_bool(0.75) { permits[i] } else { b })
            }
        };
        let list = |r: &mut StdRng| -> Vec<u64> {
            match r.gen_range(0..12) {
                0 => vec![],
                1 => (1..=60).collect(),
                _ => (0..r.gen_range(1..=4)).map(|_| r.gen_range(1..=nk + 1)).collect(),
            }
        };
        if r.gen_bool(0.15) && clock % 3 == 0 {
            // several at once, of the kinds that are one step each
            let mut sub = vec![];
            match profile {
                "wl" => {
                    sub.push(json!({"op": "setwl", "l": list(&mut r)}));
                    for _ in 0..3 {
                        sub.push(json!({"op": "checkwl", "k": k}));
                    }
                }
                _ => {
                    let (p, pb) = any(&mut r, &permits);
                    for _ in 0..r.gen_range(2..=4) {
                        sub.push(match r.gen_range(0..8) {
                            0..=4 => json!({"op": "redeem", "b": if r.gen_bool(0.9) { pb } else { b }, "p": p, "by": if r.gen_bool(0.8) { 0 } else { b }}),
                            5 => json!({"op": "hb", "b": b, "n": r.gen_range(0..4), "exp": exp(&mut r)}),
                            6 => json!({"op": "others", "b": r.gen_range(0..=BROKERS)}),
                            _ => {
                                permits.push(b);
                                json!({"op": "issue", "b": b, "k": k, "exp": exp(&mut r)})
                            }
                        });
                    }
                }
            }
            ops.push(json!({"op": "conc", "ops": sub}));
            continue;
        }
        let mut x = r.gen_range(0..total);
        let mut i = 0;
        while x >= w[i] {
            x -= w[i];
            i += 1;
        }
        ops.push(match i {
            0 => json!({"op": "hb", "b": b, "n": if r.gen_bool(0.9) { r.gen_range(0..4) } else { 100_000 }, "exp": exp(&mut r)}),
            1 => json!({"op": "least", "by": if r.gen_bool(0.8) { 0 } else { b }}),
            2 => json!({"op": "others", "b": r.gen_range(0..=BROKERS)}),
            3 => {
                permits.push(b);
                json!({"op": "issue", "b": b, "k": k, "exp": exp(&mut r)})
            }
            4 => {
                let (p, b) = any(&mut r, &permits);
                json!({"op": "redeem", "b": b, "p": p, "by": if r.gen_bool(0.8) { 0 } else { b }})
            }
            5 => json!({"op": "setwl", "l": list(&mut r)}),
            6 => json!({"op": "checkwl", "k": r.gen_range(1..=nk + 1)}),
            _ if r.gen_bool(0.15) => json!({"op": "reopen"}),
            _ => {
                let s = *[3u64, 9, 9, 30, 60].choose(&mut r).unwrap();
                clock += s;
                json!({"op": "adv", "s": s})
            }
        });
    }
    ops
}
