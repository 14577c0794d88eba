//! Connections over the real transports (loopback, real time, several threads).

use std::{
    net::{TcpListener as StdTcp, UdpSocket},
    sync::{
        atomic::{AtomicBool, AtomicI64, Ordering},
        Arc,
    },
    time::Duration,
};

use cdn_proto::{
    connection::{
        limiter::Limiter,
        protocols::{
            memory::Memory, quic::Quic, tcp::Tcp, tcp_tls::TcpTls, Connection, Listener as _, Protocol, UnfinalizedConnection as _,
        },
        Bytes,
    },
    crypto::tls::{generate_cert_from_ca, LOCAL_CA_CERT, LOCAL_CA_KEY},
};
use parking_lot::Mutex;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use tokio::{
    io::{AsyncReadExt as _, AsyncWriteExt as _},
    net::TcpSocket,
    task::JoinHandle,
    time::{sleep, timeout, Instant},
};

use crate::wire::{content, named};

struct Side {
    conn: Option<Connection>,
    got: Arc<Mutex<Vec<Value>>>,
    err: Arc<AtomicBool>,
    reader: Option<JoinHandle<()>>,
}

#[derive(Default)]
struct Gauge {
    now: AtomicI64,
    max: AtomicI64,
}

/// Counts a message for less long than it is held.
struct Counted(Arc<Gauge>, i64);
impl Counted {
    fn new(g: &Arc<Gauge>, n: i64) -> Self {
        let v = g.now.fetch_add(n, Ordering::SeqCst) + n;
        g.max.fetch_max(v, Ordering::SeqCst);
        Counted(g.clone(), n)
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        self.0.now.fetch_sub(self.1, Ordering::SeqCst);
    }
}

impl Side {
    fn new(conn: Connection, gauge: Arc<Gauge>, linger: bool, lazy: bool, seed: u64) -> Self {
        let got: Arc<Mutex<Vec<Value>>> = Arc::default();
        let err = Arc::new(AtomicBool::new(false));
        let (c, g, e) = (conn.clone(), got.clone(), err.clone());
        let reader = tokio::spawn(async move {
            let mut r = StdRng::seed_from_u64(seed);
            loop {
                match c.recv_message_raw().await {
                    Ok(raw) => {
                        let n = raw.len() as i64;
                        let counted = Counted::new(&gauge, n);
                        g.lock().push(json!([named(&raw), n]));
                        if lazy && r.gen_bool(0.25) {
                            // for so long that all there is room for on the way fills up
                            drop((counted, raw));
                            sleep(Duration::from_millis(120)).await;
                        } else if linger && r.gen_bool(0.3) {
                            let keep = raw.clone();
                            let (keep, counted) = (keep, counted);
                            drop(raw);
                            sleep(Duration::from_micros(r.gen_range(0..1500))).await;
                            drop(counted);
                            drop(keep);
                        } else {
                            drop(counted);
                            drop(raw);
                        }
                    }
                    Err(_) => {
                        e.store(true, Ordering::SeqCst);
                        return;
                    }
                }
            }
        });
        Side { conn: Some(conn), got, err, reader: Some(reader) }
    }
}

/// A narrow way to `to`: little fits on it, and what is read from it is read little by little.
async fn narrow(to: String, seed: u64) -> Option<String> {
    let small = || {
        let s = TcpSocket::new_v4().ok()?;
        s.set_recv_buffer_size(4096).ok()?;
        Some(s)
    };
    let s = small()?;
    s.bind("127.0.0.1:0".parse().unwrap()).ok()?;
    let at = s.local_addr().ok()?.to_string();
    let l = s.listen(16).ok()?;
    let there: std::net::SocketAddr = to.parse().ok()?;
    tokio::spawn(async move {
        while let Ok((a, _)) = l.accept().await {
            let Some(s) = small() else { return };
            let Ok(b) = s.connect(there).await else { return };
            let ((ar, aw), (br, bw)) = (a.into_split(), b.into_split());
            for (mut from, mut to, x) in [(ar, bw, 1), (br, aw, 2)] {
                let mut r = StdRng::seed_from_u64(seed ^ (x << 32));
                tokio::spawn(async move {
                    let mut buf = vec![0; 16384];
                    loop {
                        let most = r.gen_range(1..=buf.len());
                        match from.read(&mut buf[..most]).await {
                            Ok(n) if n > 0 && to.write_all(&buf[..n]).await.is_ok() => {}
                            // (what is half closed stays so)
                            _ => return,
                        }
                        if r.gen_bool(0.2) {
                            sleep(Duration::from_micros(r.gen_range(0..1000))).await;
                        }
                    }
                });
            }
        }
    });
    Some(at)
}

fn port(get: unsafe extern "C" fn(i32, *mut libc::sockaddr, *mut libc::socklen_t) -> i32, fd: i32) -> u16 {
    // Safety: `a` is as large as `n` says, and valid whatever is written to it
    unsafe {
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        let mut n = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
        if get(fd, std::ptr::addr_of_mut!(a).cast(), &mut n) == 0 && i32::from(a.sin_family) == libc::AF_INET {
            u16::from_be(a.sin_port)
        } else {
            0
        }
    }
}
/// What fits into the sockets of this process connected to `front`, and those accepted at `at`, before it is sent: little.
fn squeeze(front: &str, at: &str) {
    let of = |a: &str| a.rsplit(':').next().and_then(|p| p.parse::<u16>().ok()).unwrap_or(0);
    let (front, at) = (of(front), of(at));
    for fd in 3..2048 {
        let peer = port(libc::getpeername, fd);
        if peer != 0 && (peer == front || port(libc::getsockname, fd) == at) {
            let n: libc::c_int = 4096;
            // Safety: a plain option with an integer's value
            unsafe {
                libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, std::ptr::addr_of!(n).cast(), 4);
            }
        }
    }
}

async fn pair<P: Protocol>(name: &str, n: usize, limiter: &Limiter, way: Option<u64>) -> Vec<(Connection, Connection)> {
    // a free port, or a name of its own
    for attempt in 0..20 {
        let at = match name {
            "memory" => format!("proto-{}-{attempt}", std::process::id()),
            "quic" => format!("127.0.0.1:{}", UdpSocket::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()),
            _ => format!("127.0.0.1:{}", StdTcp::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()),
        };
        let (cert, key) = generate_cert_from_ca(LOCAL_CA_CERT, LOCAL_CA_KEY).unwrap();
        let Ok(listener) = P::bind(&at, cert, key).await else { continue };
        let mut r = vec![];
        let mut front = at.clone();
        if let Some(seed) = way {
            match narrow(at.clone(), seed).await {
                Some(f) => front = f,
                None => continue,
            }
        }
        let l2 = limiter.clone();
        let acceptor = tokio::spawn(async move {
            let mut v = vec![];
            for _ in 0..n {
                let Ok(u) = listener.accept().await else { return v };
                match u.finalize(l2.clone()).await {
                    Ok(c) => v.push(c),
                    Err(_) => return v,
                }
            }
            // keep listening (for quic, the endpoint lives in the listener)
            tokio::spawn(async move {
                let _keep = listener;
                std::future::pending::<()>().await;
            });
            v
        });
        for _ in 0..n {
            match timeout(Duration::from_secs(10), P::connect(&front, true, limiter.clone())).await {
                Ok(Ok(c)) => r.push(c),
                _ => break,
            }
        }
        if r.len() < n {
            acceptor.abort();
            continue;
        }
        if let Ok(Ok(v)) = timeout(Duration::from_secs(10), acceptor).await {
            if v.len() == n {
                if way.is_some() {
                    squeeze(&front, &at);
                }
                return r.into_iter().zip(v).collect();
            }
        }
    }
    vec![]
}

pub async fn random_trace(seed: u64, proto: &str) -> Value {
    let mut r = StdRng::seed_from_u64(seed);
    let n = r.gen_range(1..=2usize);
    let pool = *[0usize, 0, 2_000, 100_000].choose(&mut r).unwrap();
    let lazy = pool == 0 && r.gen_bool(0.12);
    let bound = if lazy { Some(1usize) } else { *[None, None, Some(1usize), Some(3)].choose(&mut r).unwrap() };
    let way = (["tcp", "tls"].contains(&proto) && !lazy && r.gen_bool(0.3)).then_some(seed);
    let limiter = Limiter::new((pool > 0).then_some(pool), bound);
    let pairs = match proto {
        "memory" => pair::<Memory>(proto, n, &limiter, way).await,
        "tcp" => pair::<Tcp>(proto, n, &limiter, way).await,
        "tls" => pair::<TcpTls>(proto, n, &limiter, way).await,
        "quic" => pair::<Quic>(proto, n, &limiter, way).await,
        x => panic!("unknown transport {x}"),
    };
    let gauge = Arc::new(Gauge::default());
    let most = if pool > 0 { pool } else { 2_000_000_000 };
    let mut ev = vec![json!({"op": "init", "proto": proto, "conns": n, "bound": bound.unwrap_or(0), "established": pairs.len() == n})];
    if pairs.len() < n {
        // nothing could be set up in twenty attempts: certainly not a coincidence
        ev.push(json!({"op": "setup-failed"}));
        return json!({ "ev": ev });
    }
    let linger = r.gen_bool(0.5);
    let mut sides: Vec<Side> = pairs
        .into_iter()
        .flat_map(|(a, b)| [a, b])
        .enumerate()
        .map(|(i, c)| Side::new(c, gauge.clone(), linger, lazy, seed ^ i as u64))
        .collect();
    let mut next = 0u64;
    let mut sent = vec![0usize; 2 * n];
    let mut shown = vec![0usize; 2 * n];
    let biggest = if pool > 0 {
        pool
    } else if lazy {
        3_000_000
    } else if way.is_some() {
        *[20_000, 100_000, 150_000].choose(&mut r).unwrap()
    } else { *[100usize, 20_000, 400_000].choose(&mut r).unwrap()
    };
    for _phase in 0..r.gen_range(1..=3) {
        // everybody sends at once; direction d goes from side d to the other side of its connection
        let mut jobs = vec![];
        for d in 0..2 * n {
            let k = if r.gen_bool(0.35) { 0 } else { r.gen_range(1..8) };
            let mut msgs = vec![];
            for _ in 0..k {
                if next >= 250 {
                    break;
                }
                next += 1;
                let size = if r.gen_bool(0.3) { biggest } else { 1 + r.gen_range(0..biggest) };
                msgs.push((next, size));
            }
            let Some(c) = sides[d].conn.clone() else { continue };
            let soft = r.gen_bool(0.3);
            jobs.push(tokio::spawn(async move {
                let mut l = vec![];
                for (id, size) in msgs {
                    let res = timeout(Duration::from_secs(20), c.send_message_raw(Bytes::from_unchecked(content(id, size)))).await;
                    let res = match res {
                        Ok(Ok(())) => "ok",
                        Ok(Err(_)) => "err",
                        Err(_) => "stuck",
                    };
                    l.push(json!({"op": "send", "d": d + 1, "id": id, "size": size, "r": res}));
                }
                if soft {
                    let res = match timeout(Duration::from_secs(20), c.soft_close()).await {
                        Ok(Ok(())) => "ok",
                        Ok(Err(_)) => "err",
                        Err(_) => "stuck",
                    };
                    l.push(json!({"op": "soft", "d": d + 1, "r": res}));
                }
                (d, l, soft)
            }));
        }
        let mut closed = vec![];
        for j in jobs {
            let (d, l, soft) = j.await.unwrap();
            for e in &l {
                if e["op"] == "send" && e["r"] == "ok" {
                    sent[d] += 1;
                }
            }
            ev.extend(l);
            if soft {
                closed.push(d);
            }
        }
        for d in 0..2 * n {
            if sides[d].conn.is_some() && r.gen_bool(if closed.contains(&d) { 0.7 } else { 0.1 }) {
                let t = sides[d].reader.take().unwrap();
                t.abort();
                let _ = t.await;
                sides[d].conn = None;
                ev.push(json!({"op": "drop", "d": d + 1}));
            }
        }
        // wait for everything, or the end, to arrive
        let t0 = Instant::now();
        let arrived = |d: usize, sides: &Vec<Side>| {
            let o = &sides[d ^ 1];
            o.conn.is_none()
                || o.err.load(Ordering::SeqCst)
                || (sides[d].conn.is_some() && shown[d] + o.got.lock().len() >= sent[d])
        };
        while t0.elapsed() < Duration::from_secs(20) && !(0..2 * n).all(|d| arrived(d, &sides)) {
            sleep(Duration::from_micros(300)).await;
        }
        // and for what should not come
        sleep(Duration::from_millis(2)).await;
        let mut got = vec![];
        for d in 0..2 * n {
            let o = &sides[d ^ 1];
            if o.conn.is_some() {
                let err = o.err.load(Ordering::SeqCst);
                let l = std::mem::take(&mut *o.got.lock());
                shown[d] += l.len();
                got.push(json!([d + 1, l, u8::from(err)]));
            }
        }
        ev.push(json!({"op": "q", "got": got, "held": gauge.max.load(Ordering::SeqCst), "pool": most}));
    }
    for s in &mut sides {
        if let Some(t) = s.reader.take() {
            t.abort();
        }
    }
    json!({ "ev": ev })
}

/// A peer that takes nothing in any more: how long until those who send to it are told?
pub async fn dam(seed: u64) -> Value {
    let mut r = StdRng::seed_from_u64(seed);
    let proto = ["tls", "tcp", "quic", "memory"][seed as usize % 4];
    // the receiver hands over one message at a time, and nobody takes the second
    let limiter = Limiter::new(None, Some(1));
    let pairs = match proto {
        "memory" => pair::<Memory>(proto, 1, &limiter, None).await,
        "tcp" => pair::<Tcp>(proto, 1, &limiter, None).await,
        "tls" => pair::<TcpTls>(proto, 1, &limiter, None).await,
        _ => pair::<Quic>(proto, 1, &limiter, None).await,
    };
    let mut ev = vec![json!({"op": "init", "proto": proto, "conns": 1, "bound": 1, "established": !pairs.is_empty()})];
    let Some((a, b)) = pairs.into_iter().next() else {
        ev.push(json!({"op": "setup-failed"}));
        return json!({ "ev": ev });
    };
    let (a, b) = if r.gen_bool(0.5) { (a, b) } else { (b, a) };
    let size = *[100usize, 2_000, 20_000, 60_000, 500_000].choose(&mut r).unwrap();
    let soft = r.gen_bool(0.5);
    let raw = Bytes::from_unchecked(content(1, size));
    let t0 = Instant::now();
    let mut last = t0;
    // until it takes longer than it may
    let told = loop {
        match timeout(Duration::from_secs(20), a.send_message_raw(raw.clone())).await {
            Ok(Ok(())) => last = Instant::now(),
            Ok(Err(_)) => break "send",
            Err(_) => break "never",
        }
        if soft {
            match timeout(Duration::from_secs(20), a.soft_close()).await {
                Ok(Ok(())) => last = Instant::now(),
                Ok(Err(_)) => break "soft",
                Err(_) => break "never",
            }
        }
    };
    let took = last.elapsed().as_millis() as u64;
    drop(b);
    ev.push(json!({"op": "dam", "size": size, "soft": soft, "told": told, "took": took, "total": t0.elapsed().as_millis() as u64}));
    json!({ "ev": ev })
}
