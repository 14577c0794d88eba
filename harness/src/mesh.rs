//! What several brokers know of each other's users and interests: the real `Connections` of each, and between each two
//! of them the real synchronisation messages in the order they were sent, delivered when the script says so. A link can
//! break (what is under way is lost), its ends open one after the other, and a round runs when the script says so.

use std::collections::{HashMap, VecDeque};

use cdn_broker::verif::{Connections, DirectMap, SubscriptionStatus, TopicSyncMap};
use cdn_proto::connection::protocols::Connection;
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value};
use tokio::task::AbortHandle;

use crate::common::{bid, bnum, user_key};

const MAXVER: usize = 80;
const NKEYS: u64 = 4;
const NTOPICS: u8 = 3;

enum Sync {
    Users(Vec<u8>),
    Topics(Vec<u8>),
}

struct World {
    n: u64,
    b: Vec<Connections>,
    chan: HashMap<(u64, u64), VecDeque<(Sync, Value)>>,
    users: Vec<Vec<DirectMap>>,
    topics: Vec<Vec<TopicSyncMap>>,
}

fn idle() -> AbortHandle {
    tokio::spawn(std::future::pending::<()>()).abort_handle()
}

fn nums(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|t| t.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}

impl World {
    fn new(n: u64) -> Self {
        let mut users = vec![];
        for x in 0..=n {
            let mut m = DirectMap::new(bid("w", 1));
            let mut of = vec![];
            for v in 0..MAXVER {
                if v > 0 {
                    m.insert(user_key(0), bid("w", 1));
                    m.diff();
                }
                let mut one = m.clone();
                if x == 0 {
                    one.remove(user_key(0));
                } else {
                    one.insert(user_key(0), bid("w", x));
                }
                of.push(one);
            }
            users.push(of);
        }
        let mut topics = vec![];
        for x in [SubscriptionStatus::Unsubscribed, SubscriptionStatus::Subscribed] {
            let mut m = TopicSyncMap::new(0);
            let mut of = vec![];
            for v in 0..MAXVER {
                if v > 0 {
                    m.insert(0, SubscriptionStatus::Subscribed);
                    m.diff();
                }
                let mut one = m.clone();
                one.insert(0, x.clone());
                of.push(one);
            }
            topics.push(of);
        }
        let mut w = Self { n, b: (1..=n).map(|i| Connections::new(bid("w", i))).collect(), chan: HashMap::new(), users, topics };
        for i in 1..=n {
            for j in 1..=n {
                if i != j {
                    w.half(i, j);
                }
            }
        }
        w
    }

    fn user_ents(&self, m: &DirectMap) -> Value {
        let mut out = vec![];
        for (k, vv) in &m.underlying_map {
            let k = (0..=NKEYS).find(|n| user_key(*n) == *k).unwrap_or(999);
            let mut e = [k, 999, 999];
            for (x, of) in self.users.iter().enumerate() {
                if let Some(v) = of.iter().position(|r| r.underlying_map.get(&user_key(0)) == Some(vv)) {
                    e = [k, v as u64 + 1, x as u64];
                }
            }
            out.push(e);
        }
        out.sort_unstable();
        json!(out)
    }

    fn topic_ents(&self, m: &TopicSyncMap) -> Value {
        let mut out = vec![];
        for (t, vv) in &m.underlying_map {
            let mut e = [u64::from(*t), 999, 999];
            for (x, of) in self.topics.iter().enumerate() {
                if let Some(v) = of.iter().position(|r| r.underlying_map.get(&0) == Some(vv)) {
                    e = [u64::from(*t), v as u64 + 1, x as u64];
                }
            }
            out.push(e);
        }
        out.sort_unstable();
        json!(out)
    }

    fn at(&mut self, i: u64) -> &mut Connections {
        &mut self.b[i as usize - 1]
    }

    fn push(&mut self, i: u64, to: &[u64], m: impl Fn() -> Sync, desc: &Value) {
        for j in to {
            self.chan.entry((i, *j)).or_default().push_back((m(), desc.clone()));
        }
    }

    fn peers(&mut self, i: u64) -> Vec<u64> {
        self.at(i).all_brokers().iter().map(bnum).collect()
    }

    fn send_users(&mut self, i: u64, to: &[u64], m: &DirectMap) {
        let bytes = rkyv::to_bytes::<_, 2048>(m).unwrap().to_vec();
        let d = json!({"t": "usync", "from": i, "ents": self.user_ents(m)});
        self.push(i, to, || Sync::Users(bytes.clone()), &d);
    }

    fn send_topics(&mut self, i: u64, to: &[u64], m: &TopicSyncMap) {
        let bytes = rkyv::to_bytes::<_, 2048>(m).unwrap().to_vec();
        let d = json!({"t": "tsync", "ents": self.topic_ents(m)});
        self.push(i, to, || Sync::Topics(bytes.clone()), &d);
    }

    /// i's end of a new link to j
    fn half(&mut self, i: u64, j: u64) {
        self.chan.insert((i, j), VecDeque::new());
        self.at(i).add_broker(bid("w", j), Connection::new_test(), idle());
        if let Some(m) = self.at(i).get_full_topic_sync() {
            self.send_topics(i, &[j], &m);
        }
        if let Some(m) = self.at(i).get_full_user_sync() {
            self.send_users(i, &[j], &m);
        }
    }

    fn partial_users(&mut self, i: u64) {
        if let Some(m) = self.at(i).get_partial_user_sync() {
            let to = self.peers(i);
            self.send_users(i, &to, &m);
        }
    }

    fn partial_topics(&mut self, i: u64) {
        if let Some(m) = self.at(i).get_partial_topic_sync() {
            let to = self.peers(i);
            self.send_topics(i, &to, &m);
        }
    }

    fn deliver(&mut self, i: u64, j: u64) -> Option<Value> {
        let (m, d) = self.chan.get_mut(&(i, j))?.pop_front()?;
        match m {
            Sync::Users(b) => self.at(j).apply_user_sync(rkyv::from_bytes::<DirectMap>(&b).unwrap()),
            Sync::Topics(b) => self.at(j).apply_topic_sync(&bid("w", i), rkyv::from_bytes::<TopicSyncMap>(&b).unwrap()),
        }
        Some(d)
    }

    fn linked(&self, i: u64, j: u64) -> bool {
        self.b[i as usize - 1].get_broker_connection(&bid("w", j)).is_some()
    }

    fn see(&self, i: u64) -> Value {
        let c = &self.b[i as usize - 1];
        let dm = c.get_full_user_sync().map_or(json!([]), |m| self.user_ents(&m));
        let users: Vec<u64> = (1..=NKEYS).filter(|k| c.get_user_connection(&user_key(*k)).is_some()).collect();
        let at: Vec<u64> = (1..=NKEYS).map(|k| c.get_broker_identifier_of_user(&user_key(k)).map_or(0, |b| bnum(&b))).collect();
        let mut links: Vec<u64> = c.get_broker_identifiers().iter().map(bnum).collect();
        links.sort_unstable();
        let mut interest = vec![];
        for t in 0..NTOPICS {
            let (bs, us) = c.get_interested_by_topic(&vec![t], false);
            let mut bs: Vec<u64> = bs.iter().map(bnum).collect();
            let mut us: Vec<u64> = (1..=NKEYS).filter(|k| us.contains(&user_key(*k))).collect();
            bs.sort_unstable();
            us.sort_unstable();
            interest.push(json!([bs, us]));
        }
        json!({"b": i, "dm": dm, "users": users, "at": at, "links": links, "interest": interest, "num": c.num_users()})
    }

    fn step(&mut self, op: &Value) -> Value {
        let mut e = op.clone();
        let (b, k) = (op["b"].as_u64().unwrap_or(1), op["k"].as_u64().unwrap_or(1));
        let (i, j) = (op["i"].as_u64().unwrap_or(1), op["j"].as_u64().unwrap_or(1));
        let before: HashMap<(u64, u64), usize> = self.chan.iter().map(|(k, v)| (*k, v.len())).collect();
        let ts = nums(&op["ts"]);
        let mut fresh = vec![];
        let touched = match op["op"].as_str().unwrap() {
            "login" => {
                self.at(b).add_user(&user_key(k), Connection::new_test(), &ts, idle());
                self.partial_topics(b);
                self.partial_users(b);
                vec![b]
            }
            "logout" => {
                self.at(b).remove_user(user_key(k), "asked to");
                vec![b]
            }
            "sub" => {
                self.at(b).subscribe_user_to(&user_key(k), ts);
                vec![b]
            }
            "unsub" => {
                self.at(b).unsubscribe_user_from(&user_key(k), &ts);
                vec![b]
            }
            "sync" => {
                self.partial_users(b);
                self.partial_topics(b);
                vec![b]
            }
            "deliver" => {
                e["m"] = self.deliver(i, j).unwrap();
                vec![j]
            }
            "half" => {
                fresh.push((i, j));
                self.half(i, j);
                vec![i]
            }
            "cut" => {
                for (x, y) in [(i, j), (j, i)] {
                    self.chan.insert((x, y), VecDeque::new());
                    self.at(x).remove_broker(&bid("w", y), "cut");
                }
                vec![i, j]
            }
            o => panic!("{o}"),
        };
        let mut sent = vec![];
        for x in 1..=self.n {
            for y in 1..=self.n {
                let Some(c) = self.chan.get(&(x, y)) else { continue };
                let had = if fresh.contains(&(x, y)) { 0 } else { before.get(&(x, y)).copied().unwrap_or(0) };
                for (_, d) in c.iter().skip(had) {
                    sent.push(json!([x, y, d]));
                }
            }
        }
        e["sent"] = json!(sent);
        e["st"] = json!(touched.iter().map(|b| self.see(*b)).collect::<Vec<_>>());
        e
    }

    /// What is left to happen without anyone doing anything, in a fixed order
    fn pending(&mut self) -> Option<Value> {
        for i in 1..=self.n {
            for j in 1..=self.n {
                if i != j && !self.linked(i, j) {
                    return Some(json!({"op": "half", "i": i, "j": j}));
                }
            }
        }
        for i in 1..=self.n {
            for j in 1..=self.n {
                if self.chan.get(&(i, j)).is_some_and(|c| !c.is_empty()) {
                    return Some(json!({"op": "deliver", "i": i, "j": j}));
                }
            }
        }
        None
    }

    /// Links, rounds and deliveries until nothing changes any more
    fn settle(&mut self, ev: &mut Vec<Value>) {
        for _ in 0..40 {
            while let Some(op) = self.pending() {
                ev.push(self.step(&op));
            }
            let mut news = false;
            for b in 1..=self.n {
                let e = self.step(&json!({"op": "sync", "b": b}));
                news |= e["sent"] != json!([]);
                ev.push(e);
            }
            if !news {
                ev.push(json!({"op": "settled", "st": (1..=self.n).map(|b| self.see(b)).collect::<Vec<_>>()}));
                return;
            }
        }
        ev.push(json!({"op": "unsettled"}));
    }
}

pub fn run_ops(ops: &[Value]) -> Value {
    let n = ops[0]["n"].as_u64().unwrap();
    let mut w = World::new(n);
    let mut ev = vec![ops[0].clone()];
    for op in &ops[1..] {
        match op["op"].as_str().unwrap() {
            "settle" => w.settle(&mut ev),
            "settled" | "unsettled" => {}
            _ => {
                let mut o = op.clone();
                for x in ["st", "sent", "m"] {
                    o.as_object_mut().unwrap().remove(x);
                }
                // (a replayed script may no longer fit)
                let (i, j) = (o["i"].as_u64().unwrap_or(0), o["j"].as_u64().unwrap_or(0));
                if o["op"] == "deliver" && w.chan.get(&(i, j)).is_none_or(VecDeque::is_empty) {
                    continue;
                }
                ev.push(w.step(&o));
            }
        }
    }
    json!({ "ev": ev })
}

pub fn random_trace(seed: u64, len: usize, profile: &str) -> Value {
    let mut r = StdRng::seed_from_u64(seed);
    let n = match profile {
        "two" => 2,
        "three" => 3,
        _ => r.gen_range(2..=4u64),
    };
    let keys = r.gen_range(1..=3u64);
    let topics = r.gen_range(0..=NTOPICS);
    let cuts = r.gen_bool(0.5);
    let calm = profile == "calm";
    let mut w = World::new(n);
    let mut ev = vec![json!({"op": "init", "n": n, "calm": calm, "cuts": cuts})];
    // how many deliveries and rounds there are for each thing done
    let lazy = r.gen_range(1..6);
    for _ in 0..len {
        let mut some = |r: &mut StdRng| -> Vec<u8> { (0..topics).filter(|_| r.gen_bool(0.4)).collect() };
        let b = r.gen_range(1..=n);
        let k = r.gen_range(1..=keys);
        let here = w.b[b as usize - 1].get_user_connection(&user_key(k)).is_some();
        let o = (b + r.gen_range(1..n) - 1) % n + 1;
        let op = if r.gen_range(0..10) < lazy {
            match r.gen_range(0..10) {
                0..=3 => json!({"op": "login", "b": b, "k": k, "ts": some(&mut r)}),
                4 | 5 if here => json!({"op": "logout", "b": b, "k": k}),
                6 if here && topics > 0 => json!({"op": "sub", "b": b, "k": k, "ts": some(&mut r)}),
                7 if here && topics > 0 => json!({"op": "unsub", "b": b, "k": k, "ts": some(&mut r)}),
                8 if cuts && !calm && w.linked(b, o) && w.linked(o, b) => json!({"op": "cut", "i": b, "j": o}),
                _ => json!({"op": "sync", "b": b}),
            }
        } else {
            let ready: Vec<(u64, u64)> = (1..=n)
                .flat_map(|i| (1..=n).map(move |j| (i, j)))
                .filter(|(i, j)| w.chan.get(&(*i, *j)).is_some_and(|c| !c.is_empty()) && w.linked(*i, *j) && w.linked(*j, *i))
                .collect();
            if !w.linked(b, o) {
                json!({"op": "half", "i": b, "j": o})
            } else if !ready.is_empty() && r.gen_bool(0.8) {
                let (i, j) = ready[r.gen_range(0..ready.len())];
                json!({"op": "deliver", "i": i, "j": j})
            } else {
                json!({"op": "sync", "b": b})
            }
        };
        ev.push(w.step(&op));
        if calm {
            // a link may break while what was done is still being told
            for _ in 0..r.gen_range(0..4) {
                let Some(op) = w.pending() else { break };
                ev.push(w.step(&op));
            }
            if cuts && r.gen_bool(0.3) && w.linked(b, o) && w.linked(o, b) {
                ev.push(w.step(&json!({"op": "cut", "i": b, "j": o})));
            }
        }
        if calm || r.gen_bool(0.03) {
            w.settle(&mut ev);
        }
        if w.b.iter().any(|c| c.get_full_user_sync().is_some_and(|m| w.user_ents(&m).as_array().unwrap().iter().any(|e| e[1].as_u64() > Some(MAXVER as u64 - 8)))) {
            break;
        }
    }
    w.settle(&mut ev);
    json!({ "ev": ev })
}
