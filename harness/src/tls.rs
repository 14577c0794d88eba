//! Who a server proves to be: real TLS and QUIC servers with certificates of all kinds, the real client between them.

use std::{
    io::Write as _,
    net::{TcpListener as StdTcp, UdpSocket},
    path::PathBuf,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
    time::Duration,
};

use async_trait::async_trait;
use cdn_broker::Broker;
use cdn_client::Client;
use cdn_proto::{
    connection::{
        limiter::Limiter,
        protocols::{memory::{Memory, MemoryListener, UnfinalizedMemoryConnection}, quic::Quic, tcp::Tcp, tcp_tls::TcpTls, Connection, Listener as _, Protocol, UnfinalizedConnection as _},
        Bytes,
    },
    crypto::tls::{generate_cert_from_ca, generate_root_certificate_store, LOCAL_CA_CERT, LOCAL_CA_KEY, PROD_CA_CERT},
    def::{ConnectionDef, RunDef},
    discovery::embedded::Embedded,
    error::Result,
    message::{AuthenticateResponse, Message},
};
use parking_lot::Mutex;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use rcgen::{date_time_ymd, CertificateParams, DistinguishedName, DnType, IsCa, KeyPair};
use rustls::pki_types::{CertificateDer, PrivateKeyDer, PrivatePkcs8KeyDer};
use serde_json::{json, Value};
use tokio::{
    io::AsyncWriteExt,
    task::{JoinHandle, JoinSet},
    time::{sleep, timeout, Instant},
};

use crate::{
    common::{keypair, HTopic, Hook, HookLog, Toy, BROKER_KEY},
    gauges,
};

#[derive(Clone)]
pub struct TlsConn;
impl ConnectionDef for TlsConn {
    type Scheme = Toy;
    type Protocol = TcpTls;
    type MessageHook = Hook;
}
#[derive(Clone)]
pub struct TcpConn;
impl ConnectionDef for TcpConn {
    type Scheme = Toy;
    type Protocol = Tcp;
    type MessageHook = Hook;
}
pub struct TlsRun;
impl RunDef for TlsRun {
    type Broker = TcpConn;
    type User = TlsConn;
    type DiscoveryClientType = Embedded;
    type Topic = HTopic;
}

/// In memory; remembers with which authority it was asked to connect where.
pub struct Spy;
static ASKED: Mutex<Vec<(String, bool)>> = Mutex::new(vec![]);
#[async_trait]
impl Protocol for Spy {
    type UnfinalizedConnection = UnfinalizedMemoryConnection;
    type Listener = MemoryListener;
    async fn connect(at: &str, local: bool, limiter: Limiter) -> Result<Connection> {
        ASKED.lock().push((at.to_string(), local));
        Memory::connect(at, local, limiter).await
    }
    async fn bind(at: &str, c: CertificateDer<'static>, k: PrivateKeyDer<'static>) -> Result<MemoryListener> {
        Memory::bind(at, c, k).await
    }
}
#[derive(Clone)]
pub struct SpyConn;
impl ConnectionDef for SpyConn {
    type Scheme = Toy;
    type Protocol = Spy;
    type MessageHook = Hook;
}

// ---------------------------------------------------------------- certificates

/// The certificate and key (as text) of an authority.
fn authority(name: &str) -> (String, String) {
    if name == "local" {
        return (LOCAL_CA_CERT.to_string(), LOCAL_CA_KEY.to_string());
    }
    let key = KeyPair::generate().unwrap();
    let mut p = CertificateParams::default();
    p.is_ca = IsCa::Ca(rcgen::BasicConstraints::Unconstrained);
    match name {
        // with the name of the local one
        "twin" => {}
        "other" => {
            p.distinguished_name = DistinguishedName::new();
            p.distinguished_name.push(DnType::CommonName, "somebody else");
        }
        x => panic!("authority {x}"),
    }
    (p.self_signed(&key).unwrap().pem(), key.serialize_pem())
}

fn certificate(c: &Value) -> (CertificateDer<'static>, PrivateKeyDer<'static>) {
    let ca = c["ca"].as_str().unwrap();
    if c["gen"] == 1 {
        let (cert, key) = authority(ca);
        return generate_cert_from_ca(&cert, &key).unwrap();
    }
    let mut p = CertificateParams::new(vec![match c["name"].as_str().unwrap() {
        "espresso" => "espresso",
        "other" => "example.com",
        "longer" => "espresso.example.com",
        "under" => "a.espresso",
        x => panic!("name {x}"),
    }
    .to_string()])
    .unwrap();
    (p.not_before, p.not_after) = match c["when"].as_str().unwrap() {
        "now" => (date_time_ymd(2000, 1, 1), date_time_ymd(2090, 1, 1)),
        "past" => (date_time_ymd(2000, 1, 1), date_time_ymd(2020, 1, 1)),
        "future" => (date_time_ymd(2080, 1, 1), date_time_ymd(2090, 1, 1)),
        x => panic!("when {x}"),
    };
    let key = KeyPair::generate().unwrap();
    let cert = if ca == "self" {
        p.self_signed(&key).unwrap()
    } else {
        let (cert, cakey) = authority(ca);
        let cakey = KeyPair::from_pem(&cakey).unwrap();
        let issuer = CertificateParams::from_ca_cert_pem(&cert).unwrap().self_signed(&cakey).unwrap();
        p.signed_by(&key, &issuer, &cakey).unwrap()
    };
    (cert.der().to_owned(), PrivatePkcs8KeyDer::from(key.serialize_der()).into())
}

// ---------------------------------------------------------------- servers

fn free(udp: bool) -> String {
    let a = if udp {
        UdpSocket::bind("127.0.0.1:0").unwrap().local_addr()
    } else {
        StdTcp::bind("127.0.0.1:0").unwrap().local_addr()
    };
    a.unwrap().to_string()
}

#[derive(Default)]
struct Seen {
    /// connections set up, those that failed to be, messages received
    up: AtomicU64,
    failed: AtomicU64,
    msgs: AtomicU64,
    subscribed: AtomicU64,
}

struct Server {
    at: String,
    seen: Arc<Seen>,
    tasks: Vec<JoinHandle<()>>,
}
impl Drop for Server {
    fn drop(&mut self) {
        self.tasks.iter().for_each(JoinHandle::abort);
    }
}

/// Sends back what it receives; to a client it is marshal and broker. `next`: where a marshal sends users.
async fn converse(c: Connection, seen: Arc<Seen>, next: String) {
    while let Ok(raw) = c.recv_message_raw().await {
        seen.msgs.fetch_add(1, Ordering::SeqCst);
        let reply = match Message::deserialize(&raw) {
            Ok(Message::AuthenticateWithKey(_)) => {
                Message::AuthenticateResponse(AuthenticateResponse { permit: 77, context: next.clone() }).serialize().unwrap()
            }
            Ok(Message::AuthenticateWithPermit(_)) => {
                Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: String::new() }).serialize().unwrap()
            }
            Ok(Message::Subscribe(_)) => {
                seen.subscribed.fetch_add(1, Ordering::SeqCst);
                continue;
            }
            _ => raw.to_vec(),
        };
        let _ = c.send_message_raw(Bytes::from_unchecked(reply)).await;
    }
}

async fn serve<P: Protocol>(udp: bool, cert: &Value, next: String) -> Server {
    serve_at::<P>(|| free(udp), cert, next).await
}
async fn serve_at<P: Protocol>(at: impl Fn() -> String + Send, cert: &Value, next: String) -> Server {
    let seen: Arc<Seen> = Arc::default();
    for _ in 0..50 {
        let at = at();
        let (c, k) = certificate(cert);
        let Ok(listener) = P::bind(&at, c, k).await else { continue };
        let s = seen.clone();
        let task = tokio::spawn(async move {
            // they end with the server
            let mut talks = JoinSet::new();
            while let Ok(u) = listener.accept().await {
                let (s, next) = (s.clone(), next.clone());
                talks.spawn(async move {
                    match u.finalize(Limiter::none()).await {
                        Ok(c) => {
                            s.up.fetch_add(1, Ordering::SeqCst);
                            converse(c, s, next).await;
                        }
                        Err(_) => {
                            s.failed.fetch_add(1, Ordering::SeqCst);
                        }
                    }
                });
            }
        });
        return Server { at, seen, tasks: vec![task] };
    }
    panic!("no server");
}

/// What is no server: takes connections, and says nothing, or nonsense, or goes away.
async fn odd(udp: bool, how: &'static str) -> Server {
    let task;
    let at;
    if how == "gone" && !udp {
        // taken, but nobody listens
        let s = tokio::net::TcpSocket::new_v4().unwrap();
        s.bind("127.0.0.1:0".parse().unwrap()).unwrap();
        at = s.local_addr().unwrap().to_string();
        task = tokio::spawn(async move {
            let _keep = s;
            std::future::pending::<()>().await;
        });
    } else if udp {
        let s = tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap();
        at = s.local_addr().unwrap().to_string();
        task = tokio::spawn(async move {
            let mut b = vec![0; 2000];
            while let Ok((n, from)) = s.recv_from(&mut b).await {
                if how == "noise" {
                    let _ = s.send_to(&vec![0x17; n / 2], from).await;
                }
            }
        });
    } else {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        at = l.local_addr().unwrap().to_string();
        task = tokio::spawn(async move {
            let mut keep = vec![];
            while let Ok((mut s, _)) = l.accept().await {
                match how {
                    "noise" => {
                        let _ = s.write_all(&[0x17; 300]).await;
                        keep.push(s);
                    }
                    "leaves" => drop(s),
                    _ => keep.push(s),
                }
            }
        });
    }
    Server { at, seen: Arc::default(), tasks: vec![task] }
}

// ---------------------------------------------------------------- operations

async fn connect<P: Protocol>(at: &str, local: bool) -> (&'static str, u64) {
    let t0 = Instant::now();
    let c = timeout(Duration::from_secs(40), P::connect(at, local, Limiter::none())).await;
    let took = t0.elapsed().as_millis() as u64;
    let r = match c {
        Err(_) => "stuck",
        Ok(Err(_)) => "err",
        Ok(Ok(c)) => {
            let m = vec![7u8; 1000];
            let talk = async {
                c.send_message_raw(Bytes::from_unchecked(m.clone())).await.ok()?;
                c.recv_message_raw().await.ok()
            };
            match timeout(Duration::from_secs(20), talk).await {
                Ok(Some(raw)) if raw.to_vec() == m => "ok",
                _ => "deaf",
            }
        }
    };
    (r, took)
}

/// The subjects' public keys of what is trusted.
fn roots(local: bool) -> Vec<&'static str> {
    let spki = |pem: &str| {
        let mut s = rustls::RootCertStore::empty();
        let body: String = pem.lines().filter(|l| !l.starts_with("-----")).collect();
        s.add(CertificateDer::from(unbase64(&body))).unwrap();
        s.roots[0].subject_public_key_info.as_ref().to_vec()
    };
    let (l, p) = (spki(LOCAL_CA_CERT), spki(PROD_CA_CERT));
    let store = generate_root_certificate_store(local).unwrap();
    let mut v: Vec<_> = store
        .roots
        .iter()
        .map(|r| match r.subject_public_key_info.as_ref() {
            x if x == l => "local",
            x if x == p => "prod",
            _ => "unknown",
        })
        .collect();
    v.sort_unstable();
    v
}

fn unbase64(s: &str) -> Vec<u8> {
    let v = |c: u8| match c {
        b'A'..=b'Z' => c - b'A',
        b'a'..=b'z' => c - b'a' + 26,
        b'0'..=b'9' => c - b'0' + 52,
        b'+' => 62,
        _ => 63,
    };
    let (mut out, mut acc, mut bits) = (vec![], 0u32, 0);
    for c in s.bytes().filter(|c| !b"= \n".contains(c)) {
        acc = (acc << 6) | u32::from(v(c));
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    out
}

/// Which authority a client asks for at the marshal and the broker, at first and after it has lost its session.
async fn asked(local: bool) -> Vec<Value> {
    let n = DIRS.fetch_add(1, Ordering::SeqCst);
    let (bn, mn) = (format!("spy-b-{n}"), format!("spy-m-{n}"));
    let good = json!({"ca": "local", "gen": 1});
    let times = |at: &str| ASKED.lock().iter().filter(|(x, _)| x == at).count();
    let c = user::<SpyConn>(&mn, local, 1);
    for round in 1..=2 {
        let (b, m) = (bn.clone(), mn.clone());
        let broker = serve_at::<Spy>(move || b.clone(), &good, String::new()).await;
        let _marshal = serve_at::<Spy>(move || m.clone(), &good, bn.clone()).await;
        let t0 = Instant::now();
        while t0.elapsed() < Duration::from_secs(30) && (times(&bn) < round || broker.seen.subscribed.load(Ordering::SeqCst) == 0) {
            let _ = timeout(Duration::from_millis(30), c.receive_message()).await;
        }
    }
    let _ = timeout(Duration::from_secs(5), c.close()).await;
    let l = ASKED.lock();
    l.iter().filter(|(at, _)| *at == bn || *at == mn).map(|(at, l)| json!([if *at == bn { "b" } else { "m" }, u8::from(*l)])).collect()
}

fn user<C: ConnectionDef<Scheme = Toy>>(at: &str, local: bool, key: u8) -> Arc<Client<C>> {
    Arc::new(Client::new(cdn_client::Config {
        endpoint: at.to_string(),
        use_local_authority: local,
        keypair: keypair(key),
        subscribed_topics: vec![0],
    }))
}

/// A user of a marshal and a broker with these certificates.
async fn session(m: &Value, b: &Value, local: bool) -> Value {
    let broker = serve::<TcpTls>(false, b, String::new()).await;
    let marshal = serve::<TcpTls>(false, m, broker.at.clone()).await;
    let c = user::<TlsConn>(&marshal.at, local, 1);
    let c2 = c.clone();
    let task = tokio::spawn(async move { c2.ensure_initialized().await.is_ok() });
    let t0 = Instant::now();
    let is = |s: &Server, f: fn(&Seen) -> u64| f(&s.seen) > 0;
    while t0.elapsed() < Duration::from_secs(30)
        && !(task.is_finished() && is(&broker, |s| s.subscribed.load(Ordering::SeqCst)))
        && !is(&marshal, |s| s.failed.load(Ordering::SeqCst))
        && !is(&broker, |s| s.failed.load(Ordering::SeqCst))
    {
        sleep(Duration::from_millis(3)).await;
    }
    let n = |s: &Server| s.seen.msgs.load(Ordering::SeqCst).min(1);
    let r = json!({"r": if task.is_finished() { "ok" } else { "err" }, "toldm": n(&marshal), "toldb": n(&broker)});
    let _ = timeout(Duration::from_secs(5), c.close()).await;
    task.abort();
    r
}

static DIRS: AtomicU64 = AtomicU64::new(0);
struct Dir(PathBuf);
impl Dir {
    fn new() -> Self {
        let d = std::env::temp_dir().join(format!("pushcdn-tls-{}-{}", std::process::id(), DIRS.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    fn file(&self, name: &str, text: &str) -> String {
        let p = self.0.join(name);
        std::fs::File::create(&p).unwrap().write_all(text.as_bytes()).unwrap();
        p.to_str().unwrap().to_string()
    }
    /// an authority as a marshal or broker is configured with it
    fn authority(&self, name: &str, who: &str) -> (Option<String>, Option<String>) {
        if name == "none" {
            return (None, None);
        }
        let (c, k) = authority(name);
        (Some(self.file(&format!("{who}.crt"), &c)), Some(self.file(&format!("{who}.key"), &k)))
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// A real marshal and a real broker, each with an authority of its own, and a user.
async fn system(mca: &str, bca: &str, local: bool) -> Value {
    system_with(mca, bca, local, false).await
}

/// What is served where a marshal and a broker were told to publish: how many users, how many brokers; before and while
/// a user is connected.
pub async fn live() -> Value {
    system_with("none", "none", true, true).await
}

async fn system_with(mca: &str, bca: &str, local: bool, pages: bool) -> Value {
    let dir = Dir::new();
    let db = dir.file("db", "");
    for go in 0..20 {
        let (public, private, at) = (free(false), free(false), free(false));
        let (mpage, bpage) = (free(false), free(false));
        let counts = |at: &str| {
            let at = at.to_string();
            tokio::task::spawn_blocking(move || gauges::scrape(at.parse().unwrap()).map_or([-1, -1], |v| [v[5], v[6]]))
        };
        let (ca_cert_path, ca_key_path) = dir.authority(bca, "broker");
        let hooks: Arc<Mutex<HookLog>> = Arc::default();
        let Ok(broker) = Broker::<TlsRun>::new(cdn_broker::Config {
            public_advertise_endpoint: public.clone(),
            public_bind_endpoint: public,
            private_advertise_endpoint: private.clone(),
            private_bind_endpoint: private,
            metrics_bind_endpoint: pages.then(|| bpage.clone()),
            discovery_endpoint: db.clone(),
            keypair: keypair(BROKER_KEY),
            ca_cert_path,
            ca_key_path,
            global_memory_pool_size: None,
            user_message_hook: Hook::new("u", hooks.clone()),
            broker_message_hook: Hook::new("b", hooks),
        })
        .await
        else {
            continue;
        };
        let (ca_cert_path, ca_key_path) = dir.authority(mca, "marshal");
        let Ok(marshal) = cdn_marshal::Marshal::<TlsRun>::new(cdn_marshal::Config {
            bind_endpoint: at.clone(),
            discovery_endpoint: db.clone(),
            ca_cert_path,
            ca_key_path,
            metrics_bind_endpoint: pages.then(|| mpage.clone()),
            global_memory_pool_size: None,
        })
        .await
        else {
            continue;
        };
        let b = tokio::spawn(async move {
            let _ = broker.start().await;
        });
        sleep(Duration::from_millis(150)).await;
        let m = tokio::spawn(async move {
            let _ = marshal.start().await;
        });
        let mut before = [[-1, -1]; 2];
        if pages {
            for (i, at) in [&mpage, &bpage].into_iter().enumerate() {
                for _ in 0..100 {
                    before[i] = counts(at).await.unwrap();
                    if before[i] != [-1, -1] {
                        break;
                    }
                    sleep(Duration::from_millis(50)).await;
                }
            }
        }
        if pages && before.contains(&[-1, -1]) && go < 3 {
            // the port may have been taken meanwhile
            (b.abort(), m.abort());
            continue;
        }
        let c = user::<TlsConn>(&at, local, 2);
        let talk = async {
            c.ensure_initialized().await.ok()?;
            c.send_direct_message(&keypair(2).public_key, vec![5; 500]).await.ok()?;
            c.receive_message().await.ok()
        };
        // how long to wait, not what to expect
        let likely = local && [mca, bca].iter().all(|c| ["none", "local"].contains(c));
        let r = match timeout(Duration::from_secs(if likely { 40 } else { 2 }), talk).await {
            Ok(Some(Message::Direct(d))) if d.message == vec![5; 500] => "ok",
            _ => "err",
        };
        let during = if pages { [counts(&mpage).await.unwrap(), counts(&bpage).await.unwrap()] } else { before };
        let _ = timeout(Duration::from_secs(5), c.close()).await;
        (b.abort(), m.abort());
        return if pages { json!({"r": r, "before": before, "during": during}) } else { json!({"r": r}) };
    }
    panic!("no system");
}

/// Whoever opens a connection and says nothing, or nonsense, is in nobody's way.
async fn idlers(at: &str, udp: bool, n: u64) -> Vec<tokio::net::TcpStream> {
    let mut v = vec![];
    for i in 0..n {
        if udp {
            if let Ok(s) = tokio::net::UdpSocket::bind("127.0.0.1:0").await {
                let _ = s.send_to(&vec![0xc3; 1200], at).await;
            }
        } else if let Ok(mut s) = tokio::net::TcpStream::connect(at).await {
            if i % 2 == 1 {
                let _ = s.write_all(&[0; 64]).await;
            }
            v.push(s);
        }
    }
    v
}

async fn run(op: &Value) -> Value {
    let mut e = op.clone();
    let local = op["local"] == 1;
    let udp = op["over"] == "quic";
    match op["op"].as_str().unwrap() {
        "connect" => {
            let s = if udp {
                serve::<Quic>(true, &op["cert"], String::new()).await
            } else {
                serve::<TcpTls>(false, &op["cert"], String::new()).await
            };
            let keep = idlers(&s.at, udp, op["idlers"].as_u64().unwrap_or(0)).await;
            let (r, took) = if udp { connect::<Quic>(&s.at, local).await } else { connect::<TcpTls>(&s.at, local).await };
            drop(keep);
            (e["r"], e["took"], e["told"]) = (json!(r), json!(took), json!(s.seen.msgs.load(Ordering::SeqCst).min(1)));
        }
        "odd" => {
            let how = match op["how"].as_str().unwrap() {
                "gone" => "gone",
                "noise" => "noise",
                "leaves" => "leaves",
                _ => "silent",
            };
            let s = odd(udp, how).await;
            let (r, took) = if udp { connect::<Quic>(&s.at, local).await } else { connect::<TcpTls>(&s.at, local).await };
            (e["r"], e["took"]) = (json!(r), json!(took));
        }
        // a server of one kind, a client of the other
        "plain" => {
            let (r, took) = if op["server"] == "tcp" {
                let s = serve::<Tcp>(false, &op["cert"], String::new()).await;
                connect::<TcpTls>(&s.at, local).await
            } else {
                let s = serve::<TcpTls>(false, &op["cert"], String::new()).await;
                connect::<Tcp>(&s.at, local).await
            };
            (e["r"], e["took"]) = (json!(r), json!(took));
        }
        "asked" => e["asked"] = json!(asked(local).await),
        "roots" => e["roots"] = json!(roots(local)),
        "session" => {
            for (k, v) in session(&op["m"], &op["b"], local).await.as_object().unwrap() {
                e[k] = v.clone();
            }
        }
        "system" => e["r"] = system(op["mca"].as_str().unwrap(), op["bca"].as_str().unwrap(), local).await["r"].clone(),
        x => panic!("{x}"),
    }
    e
}

/// One after the other.
pub async fn run_ops(ops: Vec<Value>) -> Value {
    let mut ev = vec![];
    for op in &ops {
        ev.push(run(op).await);
    }
    json!({"ev": ev})
}

fn cert(r: &mut StdRng) -> Value {
    let good = r.gen_bool(0.45);
    let one = r.gen_range(0..3);
    let pick = |r: &mut StdRng, n: usize, l: &[&'static str], first: &'static str| {
        if !good && (n == one || r.gen_bool(0.15)) { *l.choose(r).unwrap() } else { first }
    };
    let ca = pick(r, 0, &["other", "twin", "self"], "local");
    let name = pick(r, 1, &["other", "longer", "under"], "espresso");
    let when = pick(r, 2, &["past", "future"], "now");
    let gen = u8::from(name == "espresso" && when == "now" && ca != "self" && r.gen_bool(0.4));
    json!({"ca": ca, "name": name, "when": when, "gen": gen})
}

pub fn random_ops(seed: u64, len: usize) -> Vec<Value> {
    let mut r = StdRng::seed_from_u64(seed);
    (0..len)
        .map(|_| {
            let local = u8::from(r.gen_bool(0.8));
            let over = ["tls", "quic"][r.gen_range(0..2)];
            match r.gen_range(0..40) {
                0..=19 => json!({"op": "connect", "over": over, "cert": cert(&mut r), "local": local, "idlers": *[0, 0, 0, 1, 5].choose(&mut r).unwrap()}),
                20..=21 => {
                    let how = if over == "quic" { ["noise", "silent"][r.gen_range(0..2)] } else { ["gone", "noise", "leaves", "silent"][r.gen_range(0..4)] };
                    json!({"op": "odd", "over": over, "how": how, "local": local})
                }
                22 => json!({"op": "plain", "server": *["tcp", "tls"].choose(&mut r).unwrap(), "cert": cert(&mut r), "local": local}),
                23 => json!({"op": "roots", "local": r.gen_range(0..2)}),
                24 => json!({"op": "asked", "local": r.gen_range(0..2)}),
                25..=34 => json!({"op": "session", "m": cert(&mut r), "b": cert(&mut r), "local": local}),
                _ => {
                    let ca = |r: &mut StdRng| *["none", "none", "local", "local", "other", "twin"].choose(r).unwrap();
                    json!({"op": "system", "mca": ca(&mut r), "bca": ca(&mut r), "local": local})
                }
            }
        })
        .collect()
}
