//! One real broker; the harness plays every user, every peer broker and the discovery service.
//!
//! A trace is a list of events: inputs (open, send, drop, tick, ...) and, after each burst of inputs, a "q" event
//! with everything observed until the broker came to rest (virtual time; nothing runnable).

use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc,
    },
    time::Duration,
};

use cdn_broker::{Broker, Config};
use cdn_proto::{
    connection::{
        limiter::Limiter,
        protocols::{memory::Memory, Connection, Listener as _, Protocol as _, UnfinalizedConnection as _},
        Bytes,
    },
    crypto::tls::{generate_cert_from_ca, LOCAL_CA_CERT, LOCAL_CA_KEY},
    util::hash,
};
use parking_lot::Mutex;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use tokio::{
    task::{AbortHandle, JoinHandle},
    time::{sleep, sleep_until, Instant},
};

use crate::{common::*, net::{connect_raw, connect_stuck, fail_accepts}};

pub const ME: u64 = 3;
pub const PEERS: [u64; 4] = [1, 2, 4, 5];
pub const NKEYS: u64 = 4;
/// memory pools; the second has room for the biggest message and little else
const POOLS: [Option<usize>; 2] = [None, Some(32_000)];

pub struct HConn {
    pub conn: Option<Connection>,
    pub rx: Arc<Mutex<Vec<Value>>>,
    pub closed: Arc<AtomicBool>,
    reader: AbortHandle,
    /// nothing is read while this is set
    stalled: Arc<tokio::sync::watch::Sender<bool>>,
    /// to be ended for nothing to be read ever again
    ears: Option<AbortHandle>,
    deaf: bool,
}

impl HConn {
    pub fn new(conn: Connection, maps: Arc<Maps>, sent: Arc<Mutex<HashMap<u64, Vec<u8>>>>) -> Self {
        let rx = Arc::new(Mutex::new(Vec::new()));
        let closed = Arc::new(AtomicBool::new(false));
        let (rx2, closed2, conn2) = (rx.clone(), closed.clone(), conn.clone());
        let stalled = Arc::new(tokio::sync::watch::channel(false).0);
        let mut st = stalled.subscribe();
        let reader = tokio::spawn(async move {
            loop {
                if st.wait_for(|s| !*s).await.is_err() {
                    return;
                }
                match conn2.recv_message_raw().await {
                    Ok(raw) => {
                        let v = decode(&maps, &raw, &sent.lock());
                        rx2.lock().push(v);
                    }
                    Err(_) => {
                        closed2.store(true, Ordering::SeqCst);
                        return;
                    }
                }
            }
        })
        .abort_handle();
        HConn { conn: Some(conn), rx, closed, reader, stalled, ears: None, deaf: false }
    }
    pub async fn drop_it(&mut self) {
        if let Some(c) = self.conn.take() {
            // everything sent is written out first
            let _ = tokio::time::timeout(Duration::from_secs(2), c.soft_close()).await;
            self.reader.abort();
            tokio::task::yield_now().await;
            drop(c);
        }
    }
}

impl Drop for HConn {
    fn drop(&mut self) {
        self.reader.abort();
    }
}

pub fn gauge(name: &str) -> i64 {
    prometheus::gather()
        .iter()
        .find(|m| m.get_name() == name)
        .map_or(0, |m| m.get_metric()[0].get_gauge().get_value() as i64)
}

pub struct World {
    pub name: String,
    maps: Arc<Maps>,
    sent: Arc<Mutex<HashMap<u64, Vec<u8>>>>,
    hooks: Arc<Mutex<HookLog>>,
    disc: Arc<Mutex<DiscState>>,
    conns: Vec<HConn>,
    dialled: Arc<Mutex<Vec<(u64, Connection)>>>,
    listeners: HashMap<u64, JoinHandle<()>>,
    broker: JoinHandle<()>,
    t0: Instant,
    ticks: u64,
    gu0: i64,
    gb0: i64,
    pub ev: Vec<Value>,
    pub dead: bool,
    /// several worker threads and real time
    mt: bool,
}

/// Waits until no other thread of this process is running or about to (several worker threads, real time).
pub fn idle() {
    let me = std::fs::read_link("/proc/thread-self").map(|p| p.file_name().unwrap().to_owned()).unwrap_or_default();
    let look = || -> Option<Vec<(String, u64)>> {
        let mut v = vec![];
        for e in std::fs::read_dir("/proc/self/task").ok()? {
            let e = e.ok()?;
            if e.file_name() == me {
                continue;
            }
            let st = std::fs::read_to_string(e.path().join("status")).ok()?;
            let mut n = 0;
            for l in st.lines() {
                if let Some(x) = l.strip_prefix("State:") {
                    if !x.trim_start().starts_with('S') {
                        return None;
                    }
                }
                if l.starts_with("voluntary_ctxt_switches") || l.starts_with("nonvoluntary") {
                    n += l.split_whitespace().last()?.parse::<u64>().ok()?;
                }
            }
            v.push((e.file_name().to_string_lossy().to_string(), n));
        }
        v.sort();
        Some(v)
    };
    let (mut last, mut same) = (None, 0);
    while same < 3 {
        std::thread::sleep(Duration::from_micros(150));
        let now = look();
        same = if now.is_some() && now == last { same + 1 } else { 0 };
        last = now;
    }
}

static WORLD: AtomicU64 = AtomicU64::new(0);

impl World {
    pub async fn new(init: Value) -> Self {
        let name = format!("w{}", WORLD.fetch_add(1, Ordering::SeqCst));
        let disc = disc(&name);
        assert!(POOLS.len() > init["pool"].as_u64().unwrap_or(0) as usize);
        {
            let mut d = disc.lock();
            for (p, b, k) in triples(&init["permits"]) {
                d.permits.insert(p, (b, k));
            }
        }
        let hooks = Arc::new(Mutex::new(HookLog::default()));
        for k in 1..=NKEYS {
            hooks.lock().names.insert(hash(&user_key(k)), k);
        }
        for b in PEERS.into_iter().chain([ME]) {
            hooks.lock().names.insert(hash(&bid(&name, b)), b);
        }
        let id = bid(&name, ME);
        let (gu0, gb0) = (gauge("num_users_connected"), gauge("num_brokers_connected"));
        let broker = Broker::<Run>::new(Config {
            public_advertise_endpoint: id.public_advertise_endpoint.clone(),
            public_bind_endpoint: id.public_advertise_endpoint.clone(),
            private_advertise_endpoint: id.private_advertise_endpoint.clone(),
            private_bind_endpoint: id.private_advertise_endpoint.clone(),
            metrics_bind_endpoint: None,
            discovery_endpoint: name.clone(),
            keypair: keypair(BROKER_KEY),
            ca_cert_path: None,
            ca_key_path: None,
            global_memory_pool_size: POOLS[init["pool"].as_u64().unwrap_or(0) as usize],
            user_message_hook: Hook::new("u", hooks.clone()),
            broker_message_hook: Hook::new("b", hooks.clone()),
        })
        .await
        .expect("broker");
        let t0 = Instant::now();
        let broker = tokio::spawn(async move {
            let _ = broker.start().await;
        });
        let mut w = World {
            maps: Arc::new(Maps::new(&name, &[1, 2, 3, 4, 5])),
            name,
            sent: Arc::default(),
            hooks,
            disc,
            conns: vec![],
            dialled: Arc::default(),
            listeners: HashMap::new(),
            broker,
            t0,
            ticks: 0,
            gu0,
            gb0,
            ev: vec![],
            dead: false,
            mt: init["mt"].as_bool().unwrap_or(false),
        };
        if w.mt {
            idle();
        } else {
            sleep_until(t0 + Duration::from_secs(1)).await;
        }
        {
            let mut d = w.disc.lock();
            d.hb.clear();
            d.lists = 0;
        }
        w.ev.push(init);
        w
    }

    async fn listen(&mut self, b: u64) {
        if self.listeners.contains_key(&b) {
            return;
        }
        let (cert, key) = generate_cert_from_ca(LOCAL_CA_CERT, LOCAL_CA_KEY).unwrap();
        let l = Memory::bind(&bid(&self.name, b).private_advertise_endpoint, cert, key).await.unwrap();
        let dialled = self.dialled.clone();
        let h = tokio::spawn(async move {
            while let Ok(u) = l.accept().await {
                if let Ok(c) = u.finalize(Limiter::none()).await {
                    dialled.lock().push((b, c));
                }
            }
        });
        self.listeners.insert(b, h);
    }

    fn now(&self) -> u64 {
        if self.mt { 1000 } else { self.t0.elapsed().as_millis() as u64 }
    }

    pub fn closed(&self, c: usize) -> bool {
        let x = &self.conns[c - 1];
        x.conn.is_none() || (!x.deaf && x.closed.load(Ordering::SeqCst))
    }

    /// Runs one input and records it (a "q" gets its observations).
    pub async fn apply(&mut self, mut op: Value) {
        match op["op"].as_str().unwrap() {
            "open" => {
                let id = bid(&self.name, ME);
                let ep = if op["kind"] == "u" { id.public_advertise_endpoint } else { id.private_advertise_endpoint };
                // one that is going to stall does not take in what it has not been asked for
                let lim = if op["slow"] == true { Limiter::new(None, Some(1)) } else { Limiter::none() };
                if op["raw"] == true {
                    let (conn, ears) = connect_raw(&ep);
                    let mut c = HConn::new(conn, self.maps.clone(), self.sent.clone());
                    c.ears = Some(ears);
                    self.conns.push(c);
                } else {
                    let conn = Memory::connect(&ep, true, lim).await.expect("connect");
                    self.conns.push(HConn::new(conn, self.maps.clone(), self.sent.clone()));
                }
                op["c"] = json!(self.conns.len());
                op["now"] = json!(self.now());
            }
            "send" => {
                let c = op["c"].as_u64().unwrap() as usize;
                let raw = encode(&self.maps, &self.name, &op["m"]);
                if let (Some(id), true) = (op["m"]["id"].as_u64(), op["m"]["t"] != "garbage") {
                    self.sent.lock().insert(if id == 0 { whole(&raw) } else { id }, raw.clone());
                }
                if let Some(conn) = &self.conns[c - 1].conn {
                    let _ = tokio::time::timeout(Duration::from_secs(1), conn.send_message_raw(Bytes::from_unchecked(raw))).await;
                }
            }
            "stall" => {
                let c = op["c"].as_u64().unwrap() as usize;
                self.conns[c - 1].stalled.send_replace(op["on"].as_bool().unwrap());
            }
            "deaf" => {
                let c = op["c"].as_u64().unwrap() as usize;
                self.conns[c - 1].ears.as_ref().expect("raw").abort();
                self.conns[c - 1].deaf = true;
                tokio::task::yield_now().await;
            }
            "stuck" => {
                let id = bid(&self.name, ME);
                connect_stuck(if op["kind"] == "u" { &id.public_advertise_endpoint } else { &id.private_advertise_endpoint });
            }
            "svc" => {
                let mut d = self.disc.lock();
                let is = |k: &str, v: &str| op[k] == v;
                (d.permit_fail, d.permit_hang) = (is("permit", "fail"), is("permit", "hang"));
                (d.hb_fail, d.hb_hang) = (is("hb", "fail"), is("hb", "hang"));
                (d.list_fail, d.list_hang) = (is("list", "fail"), is("list", "hang"));
            }
            "adv" => {
                let s = op["s"].as_u64().unwrap();
                if let Some(f) = op["fails"].as_array() {
                    let id = bid(&self.name, ME);
                    fail_accepts(&id.public_advertise_endpoint, f[0].as_u64().unwrap());
                    fail_accepts(&id.private_advertise_endpoint, f[1].as_u64().unwrap());
                }
                sleep(Duration::from_millis(1000 * s + 300)).await;
                op["now"] = json!(self.now());
            }
            "drop" => {
                let c = op["c"].as_u64().unwrap() as usize;
                self.conns[c - 1].drop_it().await;
            }
            "brokers" => {
                for b in u64s(&op["listen"]) {
                    self.listen(b).await;
                }
                self.disc.lock().brokers = u64s(&op["bs"]).into_iter().collect();
            }
            "wl" => {
                let mut d = self.disc.lock();
                d.whitelist = Some(u64s(&op["ks"]).into_iter().collect());
                d.wl_fail = op["fail"].as_bool().unwrap_or(false);
                d.wl_fail_keys = op["failk"].as_array().map(|_| u64s(&op["failk"])).unwrap_or_default().into_iter().collect();
                op["failk"] = json!(d.wl_fail_keys);
            }
            "tick" => {
                self.ticks += 1;
                op["n"] = json!(self.ticks);
                sleep_until(self.t0 + Duration::from_secs(10 * self.ticks + 1)).await;
                op["now"] = json!(self.now());
            }
            "q" => {
                if self.mt {
                    idle();
                } else {
                    sleep(Duration::from_millis(2)).await;
                }
                // links the broker dialled become connections of ours
                let mut dials = vec![];
                let mut new: Vec<_> = self.dialled.lock().drain(..).collect();
                new.sort_by_key(|(b, _)| *b);
                for (b, conn) in new {
                    self.conns.push(HConn::new(conn, self.maps.clone(), self.sent.clone()));
                    dials.push(json!([b, self.conns.len()]));
                }
                if !self.mt {
                    sleep(Duration::from_millis(1)).await;
                }
                let outs: Vec<Value> = self
                    .conns
                    .iter()
                    .map(|c| if *c.stalled.borrow() { json!([]) } else { json!(std::mem::take(&mut *c.rx.lock())) })
                    .collect();
                let closed: Vec<bool> =
                    self.conns.iter().map(|c| c.conn.is_none() || c.closed.load(Ordering::SeqCst)).collect();
                let (mut hu, mut hb) = (vec![vec![]; NKEYS as usize], vec![vec![]; 5]);
                let mut hx = 0;
                for (side, who, n, kind) in self.hooks.lock().log.drain(..) {
                    let l = if side == "u" { &mut hu } else { &mut hb };
                    if who >= 1 && who as usize <= l.len() {
                        l[who as usize - 1].push(json!([n, kind]));
                    } else {
                        hx += 1;
                    }
                }
                self.dead = self.broker.is_finished();
                let lists = std::mem::take(&mut self.disc.lock().lists);
                op = json!({
                    "op": "q", "outs": outs, "closed": closed, "dials": dials,
                    "gu": gauge("num_users_connected") - self.gu0, "gb": gauge("num_brokers_connected") - self.gb0,
                    "hb": self.disc.lock().hb.drain(..).collect::<Vec<_>>(),
                    "hku": hu, "hkb": hb, "hkx": hx, "dead": self.dead, "lists": lists, "now": self.now(),
                });
            }
            x => panic!("unknown op {x}"),
        }
        self.ev.push(op);
    }

    pub async fn finish(mut self) -> Value {
        self.broker.abort();
        for (_, l) in self.listeners.drain() {
            l.abort();
        }
        drop_disc(&self.name);
        let nc = self.conns.len();
        json!({"nc": nc, "ev": std::mem::take(&mut self.ev)})
    }
}

/// Runs a fixed list of operations.
pub async fn run_ops(ops: &[Value]) -> Value {
    let mut w = World::new(ops[0].clone()).await;
    for op in &ops[1..] {
        w.apply(op.clone()).await;
        if w.dead {
            break;
        }
    }
    w.finish().await
}

// ---------------------------------------------------------------- random driver

/// Relative frequencies of what the random driver does.
pub struct Profile {
    pub uconn: u32,
    pub ubad: u32,
    pub direct: u32,
    pub bcast: u32,
    pub sub: u32,
    pub usermis: u32,
    pub udrop: u32,
    pub pconn: u32,
    pub pbad: u32,
    pub pdirect: u32,
    pub pbcast: u32,
    pub usync: u32,
    pub tsync: u32,
    pub pmis: u32,
    pub pdrop: u32,
    pub tick: u32,
    pub wl: u32,
    pub dial: u32,
    pub hook: f64,
    pub burst: u32,
    pub big: f64,
    /// discovery fails or does not answer; time passes; users stop reading
    pub svc: u32,
    pub adv: u32,
    pub stall: u32,
    pub pool: f64,
    /// users and brokers that take in nothing any more; set-ups that never end
    pub deaf: u32,
    pub stuck: u32,
}

pub fn profile(name: &str) -> Profile {
    let base = Profile {
        uconn: 10, ubad: 1, direct: 14, bcast: 14, sub: 8, usermis: 1, udrop: 4, pconn: 6, pbad: 1, pdirect: 5,
        pbcast: 5, usync: 7, tsync: 7, pmis: 1, pdrop: 2, tick: 6, wl: 1, dial: 1, hook: 0.0, burst: 3, big: 0.03,
        svc: 0, adv: 1, stall: 1, pool: 0.3, deaf: 2, stuck: 1,
    };
    match name {
        "direct" => Profile { direct: 40, usync: 12, pdirect: 14, bcast: 4, tsync: 2, ..base },
        "bcast" => Profile { bcast: 40, tsync: 12, pbcast: 14, sub: 16, direct: 4, usync: 2, ..base },
        "order" => Profile { direct: 40, bcast: 30, pdirect: 10, pbcast: 10, burst: 6, usermis: 0, pmis: 0, big: 0.15, udrop: 1, ..base },
        "subs" => Profile { sub: 40, bcast: 30, pbcast: 10, usermis: 0, ..base },
        "topics" => Profile { sub: 20, tsync: 25, bcast: 25, tick: 14, pconn: 8, pdrop: 5, usync: 2, direct: 3, ..base },
        "users" => Profile { uconn: 18, udrop: 8, usync: 30, direct: 25, tick: 14, pconn: 8, pdrop: 5, bcast: 3, tsync: 2, ..base },
        "session" => Profile { uconn: 30, udrop: 8, usync: 14, direct: 15, bcast: 8, burst: 4, ..base },
        "cleanup" => Profile { uconn: 20, udrop: 14, pconn: 14, pdrop: 12, usermis: 4, pmis: 4, tick: 10, ..base },
        "auth" => Profile { uconn: 14, ubad: 20, pconn: 10, pbad: 20, ..base },
        "wl" => Profile { wl: 12, uconn: 22, tick: 25, ..base },
        "mis" => Profile { adv: 5, usermis: 14, pmis: 14, ubad: 6, pbad: 6, ..base },
        "hook" => Profile { hook: 0.3, sub: 14, ..base },
        "svc" => Profile { svc: 8, dial: 8, adv: 6, tick: 14, uconn: 16, ubad: 4, ..base },
        "adv" => Profile { adv: 14, uconn: 12, ubad: 10, pconn: 8, pbad: 8, dial: 6, ..base },
        "stall" => Profile { stall: 14, direct: 30, bcast: 20, big: 0.4, pool: 0.0, ..base },
        "deaf" => Profile { deaf: 30, uconn: 16, pconn: 16, direct: 20, bcast: 20, pdirect: 10, pbcast: 10, tick: 10, ..base },
        "pool" => Profile { direct: 20, bcast: 20, pdirect: 10, pbcast: 10, big: 0.5, pool: 1.0, usermis: 4, pmis: 4, udrop: 6, ..base },
        "dial" => Profile { dial: 12, tick: 20, pconn: 8, pdrop: 8, pbad: 3, ..base },
        _ => base,
    }
}

struct Gen {
    r: StdRng,
    next_id: u64,
    permits: Vec<(u64, u64, u64)>,
    /// conn -> (kind, key or broker) for those that completed authentication as far as we tried
    users: Vec<(usize, u64)>,
    links: Vec<(usize, u64)>,
    listening: Vec<u64>,
    /// connections still owing the last message of their login: (conn, user's, key or broker)
    half: Vec<(usize, bool, u64)>,
    /// users that are going to stall, and those that have
    slow: Vec<usize>,
    stalled: Vec<usize>,
    /// connections that can be made deaf, and are not yet
    raw: Vec<usize>,
    pool: bool,
}

impl Gen {
    fn topics(&mut self) -> Vec<u64> {
        let n = *[0, 1, 1, 1, 1, 2, 2, 3, 4].choose(&mut self.r).unwrap();
        (0..n).map(|_| if self.r.gen_bool(0.12) { *[9u64, 77, 255].choose(&mut self.r).unwrap() } else { self.r.gen_range(0..4) }).collect()
    }
    fn topics1(&mut self) -> Vec<u64> {
        if self.r.gen_bool(0.05) {
            return self.topics();
        }
        let mut t = self.topics();
        if self.r.gen_bool(0.04) {
            // many, most of them repeated or unknown
            let (a, n) = (self.r.gen_range(0..4), *[15, 16, 20, 40, 256, 300].choose(&mut self.r).unwrap());
            t = (0..n).map(|_| *[a, a, 9, 10, 77, 254, 255].choose(&mut self.r).unwrap()).collect();
        }
        let v = self.r.gen_range(0..4);
        t.push(v);
        t
    }
    fn key(&mut self) -> u64 {
        self.r.gen_range(1..=NKEYS)
    }
    fn id(&mut self) -> u64 {
        self.next_id += 1;
        self.next_id
    }
    fn hookv(&mut self, p: &Profile) -> u8 {
        if p.hook > 0.0 && self.r.gen_bool(p.hook) {
            *[1, 1, 2, 3, 3].choose(&mut self.r).unwrap()
        } else {
            0
        }
    }
    fn hooked_topics(&mut self, p: &Profile) -> Vec<u64> {
        let mut t = self.topics1();
        match self.hookv(p) {
            1 => t.push(u64::from(HOOK_SKIP)),
            2 => t.push(u64::from(HOOK_ERR)),
            3 => t.push(u64::from(HOOK_TURN)),
            _ => (),
        }
        t
    }
    /// Without any content there is nothing to tell messages apart by, nor to tell the hook anything.
    fn maybe_empty(&mut self, m: &mut Value) {
        if self.r.gen_bool(0.05) {
            (m["id"], m["h"], m["size"], m["empty"]) = (json!(0), json!(0), json!(0), json!(1));
        }
    }
    fn size(&mut self, p: &Profile) -> u64 {
        if !self.r.gen_bool(p.big) {
            return self.r.gen_range(9..64);
        }
        match self.r.gen_range(0..20) {
            0 if !self.pool => self.r.gen_range(100_000..1_200_000),
            1..=6 if !self.pool => self.r.gen_range(30_000..100_000),
            _ => self.r.gen_range(5000..30000),
        }
    }
    fn permit_for(&mut self, k: u64) -> u64 {
        match self.permits.iter().position(|x| x.1 == ME && x.2 == k) {
            Some(i) => self.permits.remove(i).0,
            None => 4040,
        }
    }
    fn good_authkey() -> Value {
        json!({"t": "authkey", "k": BROKER_KEY, "sk": BROKER_KEY, "ns": 1, "age": 0})
    }
    fn authkey(&mut self) -> Value {
        match self.r.gen_range(0..9) {
            0 => json!({"t": "authkey", "k": BROKER_KEY, "sk": 7, "ns": 1, "age": 0}),
            1 => json!({"t": "authkey", "k": 7, "sk": 7, "ns": 1, "age": 0}),
            2 => json!({"t": "authkey", "k": BROKER_KEY, "sk": BROKER_KEY, "ns": 0, "age": 0}),
            3 => json!({"t": "authkey", "k": BROKER_KEY, "sk": BROKER_KEY, "ns": 1, "age": *[6, 7, -1, -100].choose(&mut self.r).unwrap()}),
            4 => json!({"t": "authkey", "k": BROKER_KEY, "sk": BROKER_KEY, "ns": 1, "age": 0, "tamper": true}),
            5 => json!({"t": "authkey", "k": BROKER_KEY, "sk": BROKER_KEY, "ns": 1, "age": 0, "badkey": true}),
            6 => json!({"t": "authkey", "k": BROKER_KEY, "sk": BROKER_KEY, "ns": 1, "age": 0, "nosig": true}),
            7 => json!({"t": "authkey", "k": BROKER_KEY, "sk": BROKER_KEY, "ns": 1, "age": 1000}),
            _ => json!({"t": "authkey", "k": BROKER_KEY, "sk": BROKER_KEY, "ns": 1, "age": *[3, 5].choose(&mut self.r).unwrap()}),
        }
    }
    fn usync(&mut self, b: u64) -> Value {
        let n = *[1, 1, 1, 2, 3].choose(&mut self.r).unwrap();
        let mut ks: Vec<u64> = (1..=NKEYS).collect();
        ks.shuffle(&mut self.r);
        let ents: Vec<Value> = ks[..n]
            .iter()
            .map(|k| {
                let v = *[1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 8].choose(&mut self.r).unwrap();
                let to = match self.r.gen_range(0..10) {
                    0..=4 => b,
                    5 | 6 => 0,
                    7 => ME,
                    _ => *PEERS.choose(&mut self.r).unwrap(),
                };
                json!([k, v, to])
            })
            .collect();
        let from = if self.r.gen_bool(0.9) { b } else { *PEERS.choose(&mut self.r).unwrap() };
        json!({"t": "usync", "from": from, "ents": ents})
    }
    fn tsync(&mut self) -> Value {
        let n = *[1, 1, 2, 3].choose(&mut self.r).unwrap();
        let mut ts: Vec<u64> = (0..4).collect();
        ts.shuffle(&mut self.r);
        let ents: Vec<Value> = ts[..n]
            .iter()
            .map(|t| json!([t, *[1, 1, 2, 2, 3, 4, 5].choose(&mut self.r).unwrap(), i32::from(self.r.gen_bool(0.65))]))
            .collect();
        json!({"t": "tsync", "ents": ents})
    }
}

/// One trace of about `len` bursts.
pub async fn random_trace(seed: u64, len: usize, prof: &str) -> Value {
    let p = profile(prof);
    let mut g = Gen {
        r: StdRng::seed_from_u64(seed),
        next_id: 0,
        permits: vec![],
        users: vec![],
        links: vec![],
        listening: vec![],
        half: vec![],
        slow: vec![],
        stalled: vec![],
        raw: vec![],
        pool: false,
    };
    let pool = g.r.gen_bool(p.pool);
    g.pool = pool;
    let mut permits = vec![];
    let mut n = 0;
    for k in 1..=NKEYS {
        for i in 0..(len / 3).max(6) {
            n += 1;
            permits.push((n + 1, if i == 3 { 4 } else { ME }, k));
        }
    }
    g.permits = permits.clone();
    let mut w = World::new(json!({"op": "init", "permits": permits, "pool": i32::from(pool)})).await;
    let mut used: Vec<u64> = vec![];

    // start from a populated broker most of the time
    let warm = g.r.gen_range(0..4);
    for step in 0..len {
        let nb = g.r.gen_range(1..=p.burst);
        let mut b = 0;
        while b < nb {
            b += 1;
            // forget what is closed
            g.users.retain(|(c, _)| !w.closed(*c));
            g.links.retain(|(c, _)| !w.closed(*c));
            g.half.retain(|(c, ..)| !w.closed(*c));
            g.slow.retain(|c| !w.closed(*c));
            g.raw.retain(|c| !w.closed(*c));
            let mut opts: Vec<(u32, &str)> = vec![(p.uconn, "uconn"), (p.ubad, "ubad"), (p.pconn, "pconn"), (p.pbad, "pbad")];
            if step < warm {
                opts = vec![(5, "uconn"), (5, "pconn")];
            } else {
                if b == 1 && g.stalled.is_empty() {
                    opts.extend([(p.tick, "tick"), (p.wl, "wl"), (p.dial, "dial"), (p.svc, "svc"), (p.adv, "adv"), (p.stuck, "stuck")]);
                    if !g.raw.is_empty() {
                        opts.push((p.deaf, "deaf"));
                    }
                }
                if !g.half.is_empty() {
                    opts.push((p.ubad * 2, "finish"));
                }
                if !pool && !g.slow.is_empty() {
                    opts.push((p.stall, "stall"));
                }
                if !g.stalled.is_empty() {
                    opts.push((12, "resume"));
                }
                if !g.users.is_empty() {
                    opts.extend([(p.direct, "direct"), (p.bcast, "bcast"), (p.sub, "sub"), (p.usermis, "usermis"), (p.udrop, "udrop")]);
                }
                if !g.links.is_empty() {
                    opts.extend([(p.pdirect, "pdirect"), (p.pbcast, "pbcast"), (p.usync, "usync"), (p.tsync, "tsync"), (p.pmis, "pmis"), (p.pdrop, "pdrop")]);
                }
            }
            let what = opts.choose_weighted(&mut g.r, |o| o.0).unwrap().1;
            let user = g.users.choose(&mut g.r).copied();
            let link = g.links.choose(&mut g.r).copied();
            match what {
                "uconn" => {
                    let k = g.key();
                    let pm = g.permit_for(k);
                    used.push(pm);
                    let slow = !pool && g.r.gen_bool(if p.stall > 5 { 0.5 } else { 0.2 });
                    let raw = !pool && !slow && g.r.gen_bool(if p.deaf > 5 { 0.7 } else { 0.1 });
                    w.apply(json!({"op": "open", "kind": "u", "slow": slow, "raw": raw})).await;
                    let c = w.conns.len();
                    if raw {
                        g.raw.push(c);
                    }
                    if slow {
                        g.slow.push(c);
                    }
                    w.apply(json!({"op": "send", "c": c, "m": {"t": "permit", "p": pm}})).await;
                    let t = if g.r.gen_bool(0.8) { g.topics1() } else { g.topics() };
                    w.apply(json!({"op": "send", "c": c, "m": {"t": "sub", "topics": t}})).await;
                    g.users.push((c, k));
                }
                "ubad" => {
                    w.apply(json!({"op": "open", "kind": "u"})).await;
                    let c = w.conns.len();
                    let k = g.key();
                    let ms = match g.r.gen_range(0..8) {
                        0 => vec![json!({"t": "permit", "p": 9999})],
                        1 => vec![json!({"t": "permit", "p": used.choose(&mut g.r).copied().unwrap_or(9998)}), json!({"t": "sub", "topics": [0]})],
                        2 => {
                            let other = permits.iter().find(|x| x.1 != ME && x.2 == k).unwrap().0;
                            vec![json!({"t": "permit", "p": other}), json!({"t": "sub", "topics": [0]})]
                        }
                        3 => vec![json!({"t": "sub", "topics": [0]})],
                        4 => vec![json!({"t": "garbage", "id": g.r.gen_range(0..4)})],
                        5 => {
                            let pm = g.permit_for(k);
                            used.push(pm);
                            vec![json!({"t": "permit", "p": pm}), g.usync(4)]
                        }
                        6 => {
                            let pm = g.permit_for(k);
                            used.push(pm);
                            g.half.push((c, true, k));
                            vec![json!({"t": "permit", "p": pm})]
                        }
                        _ => {
                            let id = g.id();
                            vec![json!({"t": "direct", "to": k, "id": id, "h": 0, "size": 20})]
                        }
                    };
                    for m in ms {
                        w.apply(json!({"op": "send", "c": c, "m": m})).await;
                    }
                    if g.r.gen_bool(0.3) {
                        w.apply(json!({"op": "drop", "c": c})).await;
                    }
                }
                "direct" | "pdirect" => {
                    let c = if what == "direct" { user.unwrap().0 } else { link.unwrap().0 };
                    let to = if g.r.gen_bool(0.05) { 5 } else { g.key() };
                    let (id, h, size) = (g.id(), g.hookv(&p), g.size(&p));
                    let enc = *[0, 0, 0, 0, 0, 0, 0, 1, 1, 2].choose(&mut g.r).unwrap();
                    let mut m = json!({"t": "direct", "to": to, "id": id, "h": h, "size": size, "enc": enc});
                    g.maybe_empty(&mut m);
                    w.apply(json!({"op": "send", "c": c, "m": m})).await;
                }
                "bcast" | "pbcast" => {
                    let c = if what == "bcast" { user.unwrap().0 } else { link.unwrap().0 };
                    let t = g.topics1();
                    let (id, h, size) = (g.id(), g.hookv(&p), g.size(&p));
                    let enc = *[0, 0, 0, 0, 0, 0, 0, 1, 1, 2].choose(&mut g.r).unwrap();
                    let mut m = json!({"t": "bcast", "topics": t, "id": id, "h": h, "size": size, "enc": enc});
                    g.maybe_empty(&mut m);
                    w.apply(json!({"op": "send", "c": c, "m": m})).await;
                }
                "sub" => {
                    let t = g.hooked_topics(&p);
                    let kind = if g.r.gen_bool(0.55) { "sub" } else { "unsub" };
                    w.apply(json!({"op": "send", "c": user.unwrap().0, "m": {"t": kind, "topics": t}})).await;
                }
                "usermis" => {
                    let id = g.id();
                    let m = match g.r.gen_range(0..7) {
                        0 => g.usync(4),
                        1 => g.tsync(),
                        2 => json!({"t": "permit", "p": 2}),
                        3 => json!({"t": "authresp", "p": 1, "ctx": 4}),
                        4 => Gen::good_authkey(),
                        5 => json!({"t": "badusync"}),
                        _ => json!({"t": "garbage", "id": id}),
                    };
                    w.apply(json!({"op": "send", "c": user.unwrap().0, "m": m})).await;
                }
                "udrop" => {
                    w.apply(json!({"op": "drop", "c": user.unwrap().0})).await;
                    g.users.retain(|u| u.0 != user.unwrap().0);
                }
                "pconn" => {
                    let n = *PEERS.choose(&mut g.r).unwrap();
                    let raw = !pool && g.r.gen_bool(if p.deaf > 5 { 0.7 } else { 0.1 });
                    w.apply(json!({"op": "open", "kind": "p", "raw": raw})).await;
                    let c = w.conns.len();
                    if raw {
                        g.raw.push(c);
                    }
                    w.apply(json!({"op": "send", "c": c, "m": Gen::good_authkey()})).await;
                    w.apply(json!({"op": "send", "c": c, "m": {"t": "authresp", "p": 1, "ctx": n}})).await;
                    if g.r.gen_bool(0.5) {
                        let m = g.tsync();
                        w.apply(json!({"op": "send", "c": c, "m": m})).await;
                    }
                    g.links.push((c, n));
                }
                "pbad" => {
                    w.apply(json!({"op": "open", "kind": "p"})).await;
                    let c = w.conns.len();
                    let n = *PEERS.choose(&mut g.r).unwrap();
                    let first = if g.r.gen_bool(0.75) {
                        g.authkey()
                    } else {
                        match g.r.gen_range(0..5) {
                            0 => json!({"t": "permit", "p": 2}),
                            1 => g.usync(n),
                            2 => json!({"t": "garbage", "id": 3}),
                            3 => json!({"t": "authresp", "p": 1, "ctx": n}),
                            _ => g.tsync(),
                        }
                    };
                    let second = match g.r.gen_range(0..6) {
                        0 => json!({"t": "authresp", "p": 0, "ctx": n}),
                        1 => json!({"t": "authresp", "p": 2, "ctx": n}),
                        2 => json!({"t": "authresp", "p": 1, "ctx": 0}),
                        3 => g.usync(n),
                        4 => json!({"t": "garbage", "id": 1}),
                        _ => json!({"t": "authresp", "p": 1, "ctx": n}),
                    };
                    let id = g.id();
                    let third = match g.r.gen_range(0..3) {
                        0 => g.usync(n),
                        1 => g.tsync(),
                        _ => json!({"t": "direct", "to": g.key(), "id": id, "h": 0, "size": 12}),
                    };
                    if g.r.gen_bool(0.2) {
                        w.apply(json!({"op": "send", "c": c, "m": Gen::good_authkey()})).await;
                        g.half.push((c, false, n));
                        continue;
                    }
                    for m in [first, second, third] {
                        w.apply(json!({"op": "send", "c": c, "m": m})).await;
                    }
                    g.links.push((c, n));
                }
                "finish" => {
                    let (c, u, n) = g.half.remove(g.r.gen_range(0..g.half.len()));
                    if u {
                        let t = g.topics();
                        w.apply(json!({"op": "send", "c": c, "m": {"t": "sub", "topics": t}})).await;
                        g.users.push((c, n));
                    } else {
                        w.apply(json!({"op": "send", "c": c, "m": {"t": "authresp", "p": 1, "ctx": n}})).await;
                        g.links.push((c, n));
                    }
                }
                "stall" => {
                    let c = *g.slow.choose(&mut g.r).unwrap();
                    if !g.stalled.contains(&c) {
                        g.stalled.push(c);
                        w.apply(json!({"op": "stall", "c": c, "on": true})).await;
                    }
                }
                "deaf" => {
                    let c = g.raw.remove(g.r.gen_range(0..g.raw.len()));
                    w.apply(json!({"op": "deaf", "c": c})).await;
                }
                "stuck" => {
                    let kind = *["u", "p"].choose(&mut g.r).unwrap();
                    w.apply(json!({"op": "stuck", "kind": kind})).await;
                }
                "resume" => {
                    let c = g.stalled.remove(g.r.gen_range(0..g.stalled.len()));
                    w.apply(json!({"op": "stall", "c": c, "on": false})).await;
                }
                "svc" => {
                    let mut how = |hang: bool| *(if hang { &["ok", "ok", "ok", "fail", "hang"][..] } else { &["ok", "ok", "fail"][..] }).choose(&mut g.r).unwrap();
                    let (pm, hb, list) = (how(true), how(true), how(true));
                    w.apply(json!({"op": "svc", "permit": pm, "hb": hb, "list": list})).await;
                }
                "adv" => {
                    // not beyond the next tick
                    let left = 10 * (w.ticks + 1) * 1000 + 1000 - w.now();
                    let s = *[1, 2, 3, 4, 5, 6, 7].choose(&mut g.r).unwrap();
                    if s * 1000 + 1500 < left && w.now() % 1000 < 450 {
                        let mut op = json!({"op": "adv", "s": s});
                        if g.r.gen_bool(0.5) {
                            op["fails"] = json!([g.r.gen_range(0..3), g.r.gen_range(0..3)]);
                        }
                        w.apply(op).await;
                        break;
                    }
                }
                "usync" => {
                    let (c, n) = link.unwrap();
                    let m = g.usync(n);
                    w.apply(json!({"op": "send", "c": c, "m": m})).await;
                }
                "tsync" => {
                    let m = g.tsync();
                    w.apply(json!({"op": "send", "c": link.unwrap().0, "m": m})).await;
                }
                "pmis" => {
                    let id = g.id();
                    let m = match g.r.gen_range(0..7) {
                        0 => json!({"t": "sub", "topics": [0, 1]}),
                        1 => json!({"t": "unsub", "topics": [0, 1]}),
                        2 => json!({"t": "permit", "p": 2}),
                        3 => Gen::good_authkey(),
                        4 => json!({"t": "badusync"}),
                        5 => json!({"t": "badtsync"}),
                        _ => json!({"t": "garbage", "id": id}),
                    };
                    w.apply(json!({"op": "send", "c": link.unwrap().0, "m": m})).await;
                }
                "pdrop" => {
                    w.apply(json!({"op": "drop", "c": link.unwrap().0})).await;
                    g.links.retain(|u| u.0 != link.unwrap().0);
                }
                "tick" => {
                    w.apply(json!({"op": "tick"})).await;
                    break;
                }
                "wl" => {
                    let ks: Vec<u64> = (1..=NKEYS).filter(|_| g.r.gen_bool(0.6)).collect();
                    let fail = g.r.gen_bool(0.2);
                    let failk: Vec<u64> = (1..=NKEYS).filter(|_| g.r.gen_bool(0.15)).collect();
                    w.apply(json!({"op": "wl", "ks": ks, "fail": fail, "failk": failk})).await;
                    // the next whitelist round is at a multiple of sixty seconds
                    while w.ticks % 6 != 5 {
                        w.apply(json!({"op": "tick"})).await;
                        q(&mut w, &mut g, &p).await;
                    }
                    if g.r.gen_bool(0.5) {
                        break;
                    }
                    w.apply(json!({"op": "tick"})).await;
                    break;
                }
                "dial" => {
                    let mut l = vec![];
                    for n in PEERS {
                        if g.r.gen_bool(0.6) {
                            l.push(n);
                            if !g.listening.contains(&n) {
                                g.listening.push(n);
                            }
                        }
                    }
                    let mut bs: Vec<u64> = PEERS.iter().copied().filter(|_| g.r.gen_bool(0.7)).collect();
                    bs.push(ME);
                    w.apply(json!({"op": "brokers", "bs": bs, "listen": g.listening})).await;
                    w.apply(json!({"op": "tick"})).await;
                    break;
                }
                _ => unreachable!(),
            }
        }
        q(&mut w, &mut g, &p).await;
        if w.dead {
            break;
        }
    }
    w.finish().await
}

/// Settle; answer the links the broker dialled (well or badly).
async fn q(w: &mut World, g: &mut Gen, p: &Profile) {
    w.apply(json!({"op": "q"})).await;
    let dials = w.ev.last().unwrap()["dials"].clone();
    let mut any = false;
    for d in dials.as_array().unwrap() {
        let (n, c) = (d[0].as_u64().unwrap(), d[1].as_u64().unwrap() as usize);
        let bad = g.r.gen_bool(if p.pbad > 5 { 0.5 } else { 0.15 });
        let first = if bad && g.r.gen_bool(0.5) {
            match g.r.gen_range(0..6) {
                0 => json!({"t": "authresp", "p": 0, "ctx": n}),
                // says it is another
                1 | 2 => json!({"t": "authresp", "p": 1, "ctx": *[1u64, 2, 3, 5, ME].choose(&mut g.r).unwrap()}),
                3 => json!({"t": "authresp", "p": 1, "ctx": 0}),
                4 => g.tsync(),
                _ => json!({"t": "garbage", "id": 2}),
            }
        } else {
            json!({"t": "authresp", "p": 1, "ctx": n})
        };
        if g.r.gen_bool(0.1) {
            continue; // no answer at all
        }
        let second = if bad { g.authkey() } else { Gen::good_authkey() };
        w.apply(json!({"op": "send", "c": c, "m": first})).await;
        w.apply(json!({"op": "send", "c": c, "m": second})).await;
        if g.r.gen_bool(0.3) {
            let m = g.usync(n);
            w.apply(json!({"op": "send", "c": c, "m": m})).await;
        }
        g.links.push((c, n));
        any = true;
    }
    if any {
        w.apply(json!({"op": "q"})).await;
    }
}

/// Logins, disconnections and subscriptions that race with each other (several worker threads), then probes.
pub async fn race_trace(seed: u64, len: usize) -> Value {
    let mut r = StdRng::seed_from_u64(seed);
    let mut permits = vec![];
    for n in 0..(len as u64 * 8) {
        permits.push((n + 2, ME, n % NKEYS + 1));
    }
    let mut left = permits.clone();
    let mut w = World::new(json!({"op": "init", "mt": true, "permits": permits})).await;
    let (mut users, mut links): (Vec<usize>, Vec<usize>) = (vec![], vec![]);
    let mut id = 0;
    let spin = |r: &mut StdRng| {
        let t = std::time::Instant::now();
        let d = Duration::from_nanos(*[0, 0, 500, 2000, 10_000, 40_000].choose(r).unwrap());
        while t.elapsed() < d {
            std::hint::spin_loop();
        }
    };
    for _ in 0..len {
        // everything up to the last step of a login
        let mut fire: Vec<Vec<Value>> = vec![];
        for _ in 0..r.gen_range(0..3) {
            let k = r.gen_range(1..=2u64);
            if let Some(i) = left.iter().position(|p| p.2 == k) {
                let p = left.remove(i).0;
                w.apply(json!({"op": "open", "kind": "u"})).await;
                let c = w.conns.len();
                w.apply(json!({"op": "send", "c": c, "m": {"t": "permit", "p": p}})).await;
                w.apply(json!({"op": "q"})).await;
                let mut f = vec![json!({"op": "send", "c": c, "m": {"t": "sub", "topics": [r.gen_range(0..3)]}})];
                if r.gen_bool(0.4) {
                    f.push(json!({"op": "send", "c": c, "m": {"t": "sub", "topics": [3]}}));
                }
                if r.gen_bool(0.4) {
                    f.push(json!({"op": "drop", "c": c}));
                } else {
                    users.push(c);
                }
                fire.push(f);
            }
        }
        for _ in 0..r.gen_range(0..2) {
            let b = *PEERS[..2].choose(&mut r).unwrap();
            w.apply(json!({"op": "open", "kind": "p"})).await;
            let c = w.conns.len();
            w.apply(json!({"op": "send", "c": c, "m": Gen::good_authkey()})).await;
            w.apply(json!({"op": "q"})).await;
            let mut f = vec![json!({"op": "send", "c": c, "m": {"t": "authresp", "p": 1, "ctx": b}})];
            if r.gen_bool(0.6) {
                f.push(json!({"op": "send", "c": c, "m": {"t": "tsync", "ents": [[r.gen_range(0..3), 1, 1]]}}));
            }
            if r.gen_bool(0.4) {
                f.push(json!({"op": "drop", "c": c}));
            } else {
                links.push(c);
            }
            fire.push(f);
        }
        users.retain(|c| !w.closed(*c));
        links.retain(|c| !w.closed(*c));
        // those that are there
        for c in users.iter().chain(links.iter()) {
            if fire.len() < 4 && !fire.iter().any(|f| f[0]["c"] == *c) && r.gen_bool(0.6) {
                fire.push(vec![match r.gen_range(0..3) {
                    0 if users.contains(c) => {
                        let t = if r.gen_bool(0.6) { "sub" } else { "unsub" };
                        json!({"op": "send", "c": c, "m": {"t": t, "topics": [r.gen_range(0..4)]}})
                    }
                    0 => json!({"op": "send", "c": c, "m": {"t": "tsync", "ents": [[r.gen_range(0..3), 5, i32::from(r.gen_bool(0.5))]]}}),
                    _ => json!({"op": "drop", "c": c}),
                }]);
            }
        }
        fire.shuffle(&mut r);
        while !fire.is_empty() {
            let i = r.gen_range(0..fire.len());
            let op = fire[i].remove(0);
            if fire[i].is_empty() {
                fire.remove(i);
            }
            w.apply(op).await;
            spin(&mut r);
        }
        w.apply(json!({"op": "q"})).await;
        users.retain(|c| !w.closed(*c));
        links.retain(|c| !w.closed(*c));
        // one message at a time
        let from: Vec<usize> = users.iter().chain(links.iter()).copied().collect();
        if let Some(&c) = from.choose(&mut r) {
            for k in 1..=2 {
                id += 1;
                w.apply(json!({"op": "send", "c": c, "m": {"t": "direct", "to": k, "id": id, "h": 0, "size": 20}})).await;
                w.apply(json!({"op": "q"})).await;
            }
            for t in 0..4 {
                id += 1;
                w.apply(json!({"op": "send", "c": c, "m": {"t": "bcast", "topics": [t], "id": id, "h": 0, "size": 20}})).await;
                w.apply(json!({"op": "q"})).await;
            }
        }
        if w.dead {
            break;
        }
    }
    w.finish().await
}

/// Several worker threads; a few connections that send a great deal at once, of very different sizes.
pub async fn flood_trace(seed: u64, len: usize) -> Value {
    let mut r = StdRng::seed_from_u64(seed);
    let permits: Vec<(u64, u64, u64)> = (1..=3).map(|k| (k + 1, ME, k)).collect();
    let mut w = World::new(json!({"op": "init", "mt": true, "permits": permits})).await;
    for k in 1..=3u64 {
        w.apply(json!({"op": "open", "kind": "u"})).await;
        w.apply(json!({"op": "send", "c": k, "m": {"t": "permit", "p": k + 1}})).await;
        w.apply(json!({"op": "send", "c": k, "m": {"t": "sub", "topics": if k == 3 { vec![0, 1] } else { vec![k % 2] }}})).await;
        w.apply(json!({"op": "q"})).await;
    }
    for (c, b) in [(4u64, 1u64), (5, 5)] {
        w.apply(json!({"op": "open", "kind": "p"})).await;
        w.apply(json!({"op": "send", "c": c, "m": Gen::good_authkey()})).await;
        w.apply(json!({"op": "send", "c": c, "m": {"t": "authresp", "p": 1, "ctx": b}})).await;
        w.apply(json!({"op": "send", "c": c, "m": {"t": "tsync", "ents": [[0, 1, 1], [2, 1, 1]]}})).await;
        if b == 5 {
            w.apply(json!({"op": "send", "c": c, "m": {"t": "usync", "from": 5, "ents": [[4, 1, 5]]}})).await;
        }
        w.apply(json!({"op": "q"})).await;
    }
    let mut id = 0;
    for _ in 0..len {
        // who sends, and how much
        let two = r.gen_bool(0.4);
        let mut from = [1u64, 2, 3, 4, 5];
        from.shuffle(&mut r);
        let (senders, n) = if two { (&from[..2], 8) } else { (&from[..1], *[6, 12, 30].choose(&mut r).unwrap()) };
        let (key, topic) = (r.gen_range(1..=4u64), r.gen_range(0..3u64));
        for _ in 0..n {
            id += 1;
            let size = match r.gen_range(0..10) {
                0 | 1 => r.gen_range(40_000..250_000),
                2..=4 => r.gen_range(2_000..20_000),
                _ => r.gen_range(9..100),
            };
            // (two threads' broadcasts may reach different receivers in different orders)
            let m = match r.gen_range(0..10) {
                0..=4 if two => json!({"t": "direct", "to": key, "id": id, "h": 0, "size": size}),
                5.. if two => json!({"t": "direct", "to": r.gen_range(1..=4u64), "id": id, "h": 0, "size": size}),
                0..=4 => json!({"t": "direct", "to": key, "id": id, "h": 0, "size": size}),
                5..=8 => json!({"t": "bcast", "topics": [topic], "id": id, "h": 0, "size": size}),
                _ => json!({"t": "direct", "to": r.gen_range(1..=4u64), "id": id, "h": 0, "size": size}),
            };
            w.apply(json!({"op": "send", "c": senders.choose(&mut r).unwrap(), "m": m})).await;
        }
        w.apply(json!({"op": "q"})).await;
        if w.dead {
            break;
        }
    }
    w.finish().await
}
