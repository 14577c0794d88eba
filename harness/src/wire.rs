//! The framed transport over byte streams whose other ends the harness holds: readers that share a memory pool
//! (Wire), and a writer (Link). Virtual time.

use std::{
    collections::{BTreeMap, HashMap},
    sync::Arc,
    time::Duration,
};

use cdn_proto::{
    connection::{limiter::Limiter, metrics, protocols::Connection, Bytes},
    MAX_MESSAGE_SIZE,
};
use parking_lot::Mutex;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use tokio::{
    io::{duplex, AsyncReadExt, AsyncWriteExt, DuplexStream},
    task::AbortHandle,
    time::{sleep, sleep_until, timeout, Instant},
};

/// The content of a message: recognisable, and different at every position.
pub fn content(id: u64, size: usize) -> Vec<u8> {
    (0..size as u64)
        .map(|i| if i == 0 { id as u8 } else { (i.wrapping_mul(131).wrapping_add(id.wrapping_mul(29)) ^ (i >> 8)) as u8 })
        .collect()
}
pub fn named(raw: &[u8]) -> u64 {
    match raw.first() {
        None => 0,
        Some(&id) if content(u64::from(id), raw.len()) == raw => u64::from(id),
        _ => 999,
    }
}
fn frame(id: u64, size: usize) -> Vec<u8> {
    let mut v = (size as u32).to_be_bytes().to_vec();
    v.extend(content(id, size));
    v
}
fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or(0) as usize
}

struct End {
    tx: Option<DuplexStream>,
    /// the reader's own writing side goes here; nothing is ever written
    _rx: DuplexStream,
    conn: Option<Connection>,
    todo: Vec<u8>,
    /// bytes missing of the size field
    header: usize,
}

/// What has been counted since the process started: bytes received and sent, shares of memory pools returned.
fn counted() -> [i64; 3] {
    [
        metrics::BYTES_RECV.as_ref().unwrap().get() as i64,
        metrics::BYTES_SENT.as_ref().unwrap().get() as i64,
        metrics::LATENCY.as_ref().unwrap().get_sample_count() as i64,
    ]
}

struct Readers {
    /// what had been counted before; shares taken by the harness itself
    base: [i64; 3],
    own: i64,
    cap: usize,
    limiter: Limiter,
    t0: Instant,
    clock: u64,
    ends: Vec<End>,
    held: HashMap<u64, Vec<Bytes>>,
    ev: Vec<Value>,
}

async fn settle() {
    sleep(Duration::from_millis(3)).await;
}

impl Readers {
    fn new(init: &Value) -> Self {
        let cap = us(&init["cap"]);
        let bound = us(&init["bound"]);
        Readers {
            base: counted(),
            own: 0,
            cap,
            limiter: Limiter::new((cap > 0).then_some(cap), (bound > 0).then_some(bound)),
            t0: Instant::now(),
            clock: 0,
            ends: vec![],
            held: HashMap::new(),
            ev: vec![init.clone()],
        }
    }

    async fn apply(&mut self, mut op: Value) {
        let Readers { base, own, cap, limiter, t0, clock, ends, held, ev } = self;
        let c = us(&op["c"]);
        match op["op"].as_str().unwrap() {
            "open" => {
                let (tx, reader) = duplex(1 << 20);
                let (writer, rx) = duplex(64);
                let conn = Connection::verif_from_duplex(writer, reader, limiter.clone());
                ends.push(End { tx: Some(tx), _rx: rx, conn: Some(conn), todo: vec![], header: 0 });
                op["c"] = json!(ends.len());
            }
            k @ ("frame" | "part" | "head" | "more" | "rest" | "big") => {
                let e = &mut ends[c - 1];
                let n = us(&op["n"]);
                let size = us(&op["size"]);
                let now = match k {
                    "big" => {
                        let z = MAX_MESSAGE_SIZE.saturating_add(size as u32);
                        e.todo = vec![];
                        let mut v = z.to_be_bytes().to_vec();
                        v.extend([7; 16]);
                        v
                    }
                    "more" => {
                        let k = e.header;
                        e.todo.drain(..k).collect()
                    }
                    "rest" => std::mem::take(&mut e.todo),
                    _ => {
                        let mut f = frame(op["id"].as_u64().unwrap(), size);
                        let k = match k {
                            "frame" => f.len(),
                            "part" => 4 + n,
                            _ => n,
                        };
                        e.header = 4usize.saturating_sub(k);
                        e.todo = f.split_off(k);
                        f
                    }
                };
                if let Some(tx) = &mut e.tx {
                    // in pieces
                    for piece in now.chunks(7) {
                        if timeout(Duration::from_secs(1), tx.write_all(piece)).await.map_or(true, |r| r.is_err()) {
                            break;
                        }
                    }
                }
            }
            "close" => ends[c - 1].tx = None,
            "letgo" => ends[c - 1].conn = None,
            "hold" => {
                let n = op["n"].as_i64().unwrap();
                let Some(h) = held.get_mut(&op["id"].as_u64().unwrap()).filter(|h| !h.is_empty()) else { return };
                if n > 0 {
                    let more: Vec<Bytes> = (0..n).map(|_| h[0].clone()).collect();
                    h.extend(more);
                } else {
                    h.truncate(h.len() - (-n) as usize);
                }
            }
            "adv" => {
                settle().await;
                // tenths of a second
                *clock += op["s"].as_u64().unwrap();
                op["to"] = json!(*clock);
                sleep_until(*t0 + Duration::from_millis(100 * *clock)).await;
            }
            "q" => {
                settle().await;
                let mut drain = vec![];
                for d in op["drain"].as_array().unwrap() {
                    let c = us(if d.is_array() { &d[0] } else { d });
                    let conn = ends[c - 1].conn.as_ref().expect("drained after being let go");
                    let (mut got, mut err) = (vec![], 0);
                    loop {
                        match timeout(Duration::from_millis(1), conn.recv_message_raw()).await {
                            Ok(Ok(raw)) => {
                                let id = named(&raw);
                                got.push(json!([id, raw.len()]));
                                held.entry(id).or_default().push(raw);
                            }
                            Ok(Err(_)) => {
                                err = 1;
                                break;
                            }
                            Err(_) => break,
                        }
                    }
                    drain.push(json!([c, got, err]));
                }
                settle().await;
                let mut avail = -1i64;
                if *cap > 0 {
                    // the most that can be had at once
                    let (mut lo, mut hi) = (0u32, *cap as u32 * 2);
                    while lo < hi {
                        let mid = (lo + hi + 1) / 2;
                        if timeout(Duration::ZERO, limiter.allocate_message_bytes(mid)).await.is_ok() {
                            *own += 1;
                            lo = mid;
                        } else {
                            hi = mid - 1;
                        }
                    }
                    avail = i64::from(lo);
                }
                let now = counted();
                op = json!({"op": "q", "drain": drain, "avail": avail, "rcvd": now[0] - base[0], "sent": now[1] - base[1], "back": now[2] - base[2] - *own});
            }
            x => panic!("unknown op {x}"),
        }
        ev.push(op);
    }
}

pub async fn run_ops(ops: &[Value]) -> Value {
    let mut w = Readers::new(&ops[0]);
    for op in &ops[1..] {
        w.apply(op.clone()).await;
    }
    json!({ "ev": w.ev })
}


pub async fn random_trace(seed: u64, len: usize) -> Value {
    let mut r = StdRng::seed_from_u64(seed);
    let cap = *[0usize, 10, 40, 100, 100, 1000].choose(&mut r).unwrap();
    let bound = *[0usize, 0, 1, 2].choose(&mut r).unwrap();
    let conns = r.gen_range(1..=4usize);
    let mut w = Readers::new(&json!({"op": "init", "cap": cap, "bound": bound}));
    for c in 1..=conns {
        w.apply(json!({"op": "open", "c": c, "bound": bound})).await;
    }
    // per connection: bytes of an unfinished size field, unfinished frame, closed or hopeless, let go
    let mut header: Vec<usize> = vec![4; conns];
    let mut unfinished = vec![false; conns];
    let mut over = vec![false; conns];
    let mut gone = vec![false; conns];
    let mut held: BTreeMap<u64, u64> = BTreeMap::new();
    let mut next = 0u64;
    let greedy = r.gen_bool(0.7);
    let oversize = r.gen_bool(0.3);
    for _ in 0..len {
        for _ in 0..r.gen_range(1..=3) {
            let c = r.gen_range(1..=conns);
            let i = c - 1;
            match r.gen_range(0..24) {
                0 if !over[i] => {
                    over[i] = true;
                    w.apply(json!({"op": "close", "c": c})).await;
                }
                1 if !gone[i] && r.gen_bool(0.5) => {
                    gone[i] = true;
                    w.apply(json!({"op": "letgo", "c": c})).await;
                }
                2 if !over[i] && !unfinished[i] && r.gen_bool(0.3) => {
                    over[i] = true;
                    let z = *[1u64, 2, 1000, 1 << 31, u64::from(u32::MAX)].choose(&mut r).unwrap();
                    w.apply(json!({"op": "big", "c": c, "size": z})).await;
                }
                3 | 4 if over[i] => {}
                5..=9 if unfinished[i] => {
                    unfinished[i] = false;
                    w.apply(json!({"op": "rest", "c": c})).await;
                }
                10 | 11 if unfinished[i] && header[i] < 4 => {
                    w.apply(json!({"op": "more", "c": c, "n": 0})).await;
                    header[i] = 4;
                }
                12..=14 if !held.is_empty() => {
                    let (&id, &n) = held.iter().nth(r.gen_range(0..held.len())).unwrap();
                    if r.gen_bool(0.25) {
                        held.insert(id, n + 1);
                        w.apply(json!({"op": "hold", "id": id, "n": 1})).await;
                    } else {
                        if n == 1 {
                            held.remove(&id);
                        } else {
                            held.insert(id, n - 1);
                        }
                        w.apply(json!({"op": "hold", "id": id, "n": -1})).await;
                    }
                }
                15 => w.apply(json!({"op": "adv", "s": 12 * r.gen_range(1..=5u64)})).await,
                _ if !over[i] && !unfinished[i] && next < 250 => {
                    let m = if cap == 0 || (oversize && r.gen_bool(0.2)) { cap.max(60) * 2 } else { cap };
                    let size = if r.gen_bool(0.3) { m } else { r.gen_range(0..=m) };
                    let id = if size == 0 { 0 } else {
                        next += 1;
                        next
                    };
                    match r.gen_range(0..4) {
                        0 if size > 0 => {
                            unfinished[i] = true;
                            header[i] = 4;
                            w.apply(json!({"op": "part", "c": c, "id": id, "size": size, "n": r.gen_range(0..size)})).await;
                        }
                        1 => {
                            unfinished[i] = true;
                            header[i] = r.gen_range(1..=3);
                            w.apply(json!({"op": "head", "c": c, "id": id, "size": size, "n": header[i]})).await;
                        }
                        _ => w.apply(json!({"op": "frame", "c": c, "id": id, "size": size})).await,
                    }
                }
                _ => {}
            }
        }
        let drain: Vec<usize> = (1..=conns).filter(|c| !gone[c - 1] && r.gen_bool(0.6)).collect();
        w.apply(json!({"op": "q", "drain": drain})).await;
        if !drain.is_empty() {
            let last = w.ev.last().unwrap().clone();
            for d in last["drain"].as_array().unwrap() {
                for m in d[1].as_array().unwrap() {
                    let id = m[0].as_u64().unwrap();
                    if id > 0 && id < 999 {
                        if greedy && r.gen_bool(0.5) {
                            w.apply(json!({"op": "hold", "id": id, "n": -1})).await;
                        } else {
                            held.insert(id, 1);
                        }
                    }
                }
            }
        }
    }
    json!({ "ev": w.ev })
}

// ---------------------------------------------------------------- the writing side

pub async fn link_ops(ops: &[Value]) -> Value {
    let bound = us(&ops[0]["bound"]);
    let room = us(&ops[0]["room"]);
    let (writer, far) = duplex(room);
    let (_far_tx, reader) = duplex(64);
    let mut far = Some(far);
    let mut conn = Some(Connection::verif_from_duplex(writer, reader, Limiter::new(None, (bound > 0).then_some(bound))));
    let base = counted();
    let t0 = Instant::now();
    let mut clock = 0;
    let mut ev = vec![ops[0].clone()];
    let softs: Arc<Mutex<Vec<&'static str>>> = Arc::default();
    let mut tasks: Vec<AbortHandle> = vec![];
    let mut seen: Vec<u8> = vec![];
    for op in &ops[1..] {
        let mut op = op.clone();
        settle().await;
        match op["op"].as_str().unwrap() {
            "send" => {
                let raw = Bytes::from_unchecked(content(op["id"].as_u64().unwrap(), us(&op["size"])));
                op["r"] = json!(match &conn {
                    None => "gone",
                    Some(c) => match timeout(Duration::from_millis(1), c.send_message_raw(raw)).await {
                        Ok(Ok(())) => "ok",
                        Ok(Err(_)) => "err",
                        Err(_) => "full",
                    },
                });
            }
            "soft" => {
                if let Some(c) = conn.clone() {
                    let softs = softs.clone();
                    let k = softs.lock().len();
                    softs.lock().push("wait");
                    tasks.push(
                        tokio::spawn(async move {
                            let r = c.soft_close().await;
                            softs.lock()[k] = if r.is_ok() { "ok" } else { "err" };
                        })
                        .abort_handle(),
                    );
                }
            }
            "drop" => {
                for (k, t) in tasks.iter().enumerate() {
                    t.abort();
                    let mut s = softs.lock();
                    if s[k] == "wait" {
                        s[k] = "none";
                    }
                }
                tokio::task::yield_now().await;
                conn = None;
            }
            "away" => far = None,
            "adv" => {
                clock += op["s"].as_u64().unwrap();
                sleep_until(t0 + Duration::from_secs(clock)).await;
            }
            "read" => {
                let n = us(&op["n"]);
                let mut buf = vec![0u8; n];
                let (mut got, mut eof) = (0, false);
                if let Some(f) = &mut far {
                    while got < n {
                        match timeout(Duration::from_millis(1), f.read(&mut buf[got..])).await {
                            Ok(Ok(0) | Err(_)) => {
                                eof = true;
                                break;
                            }
                            Ok(Ok(k)) => got += k,
                            Err(_) => break,
                        }
                    }
                }
                seen.extend(&buf[..got]);
                let mut frames = vec![];
                while seen.len() >= 4 {
                    let z = u32::from_be_bytes(seen[..4].try_into().unwrap()) as usize;
                    if z > 100_000 {
                        frames.push(json!([999, 0]));
                        seen.clear();
                    } else if seen.len() >= 4 + z {
                        frames.push(json!([named(&seen[4..4 + z]), z]));
                        seen.drain(..4 + z);
                    } else {
                        break;
                    }
                }
                op["got"] = json!(got);
                op["eof"] = json!(eof);
                op["frames"] = json!(frames);
            }
            "q" => op = json!({"op": "q", "softs": *softs.lock(), "rcvd": counted()[0] - base[0], "wrote": counted()[1] - base[1]}),
            x => panic!("unknown op {x}"),
        }
        ev.push(op);
    }
    for t in tasks {
        t.abort();
    }
    json!({ "ev": ev })
}

pub async fn link_random(seed: u64, len: usize) -> Value {
    let mut r = StdRng::seed_from_u64(seed);
    let room = *[1usize, 3, 4, 10, 64, 8192].choose(&mut r).unwrap();
    let bound = *[0usize, 0, 1, 2].choose(&mut r).unwrap();
    let mut ops = vec![json!({"op": "init", "room": room, "bound": bound})];
    let (mut next, mut gone, mut away) = (0u64, false, false);
    for _ in 0..len {
        match r.gen_range(0..20) {
            0..=6 if next < 250 => {
                let size = *[0usize, 1, 2, 5, 12, 40, room, room * 2].choose(&mut r).unwrap();
                let id = if size == 0 { 0 } else {
                    next += 1;
                    next
                };
                ops.push(json!({"op": "send", "id": id, "size": size}));
            }
            7 | 8 if !gone => ops.push(json!({"op": "soft"})),
            9 if r.gen_bool(0.4) => {
                gone = true;
                ops.push(json!({"op": "drop"}));
            }
            10 if r.gen_bool(0.3) => {
                away = true;
                ops.push(json!({"op": "away"}));
            }
            11 | 12 => ops.push(json!({"op": "adv", "s": 2 * r.gen_range(1..=3u64)})),
            _ if !away => {
                let n = *[1usize, 2, 4, 7, 20, room, 100, 20_000].choose(&mut r).unwrap();
                ops.push(json!({"op": "read", "n": n}));
            }
            _ => {}
        }
        ops.push(json!({"op": "q"}));
    }
    link_ops(&ops).await
}
