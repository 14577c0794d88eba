//! A network in memory: byte streams whose links can be named, counted, slowed down and cut. Endpoints whose world
//! starts with `net` are on it; all others are those of the `Memory` protocol.

use std::{
    collections::HashMap,
    sync::{Arc, OnceLock},
    time::Duration,
};

use async_trait::async_trait;
use cdn_proto::{
    connection::{
        limiter::Limiter,
        protocols::{
            memory::{Memory, MemoryListener, UnfinalizedMemoryConnection},
            Connection, Listener, Protocol, UnfinalizedConnection,
        },
        Bytes,
    },
    error::{Error, Result},
    message::Message,
};
use parking_lot::Mutex;
use rand::{rngs::StdRng, Rng, SeedableRng};
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use tokio::{
    io::{duplex, AsyncReadExt, AsyncWriteExt, DuplexStream},
    sync::{mpsc, Mutex as AMutex, Semaphore},
    task::AbortHandle,
    time::sleep,
};

use crate::common::{disc, key_of};

pub struct Net;

pub enum NetListener {
    Mem(MemoryListener, Arc<Semaphore>, AMutex<mpsc::UnboundedReceiver<Raw>>),
    Pipe(String, AMutex<mpsc::UnboundedReceiver<(DuplexStream, DuplexStream)>>),
}
pub enum NetUnfinalized {
    Mem(UnfinalizedMemoryConnection),
    /// never gets any further
    Stuck,
    Pipe(DuplexStream, DuplexStream),
}

// ---------------------------------------------------------------- failing to accept

static FAILS: OnceLock<Mutex<HashMap<String, Arc<Semaphore>>>> = OnceLock::new();

/// The next `n` times that a connection is accepted at this endpoint there is none, but an error.
pub fn fail_accepts(endpoint: &str, n: u64) {
    fails(endpoint).add_permits(n as usize);
}
fn fails(endpoint: &str) -> Arc<Semaphore> {
    FAILS.get_or_init(Mutex::default).lock().entry(endpoint.to_string()).or_insert_with(|| Arc::new(Semaphore::new(0))).clone()
}

// ---------------------------------------------------------------- other ways to connect

/// What turns up at an endpoint besides the connections of the `Memory` protocol
pub enum Raw {
    Stuck,
    Pipe(DuplexStream, DuplexStream),
}

static RAWS: OnceLock<Mutex<HashMap<String, mpsc::UnboundedSender<Raw>>>> = OnceLock::new();

/// A connection whose set-up is never finished by the side that connects.
pub fn connect_stuck(endpoint: &str) {
    let _ = RAWS.get_or_init(Mutex::default).lock()[endpoint].send(Raw::Stuck);
}

/// A connection, and what is to be ended for our side to take in nothing any more (it can still send).
pub fn connect_raw(endpoint: &str) -> (Connection, AbortHandle) {
    let ((a, b), (c, mut d), (mut e, f)) = (duplex(8192), duplex(8192), duplex(8192));
    let _ = RAWS.get_or_init(Mutex::default).lock()[endpoint].send(Raw::Pipe(c, b));
    let ears = tokio::spawn(async move {
        let _ = tokio::io::copy(&mut d, &mut e).await;
    });
    (Connection::verif_from_duplex(a, f, Limiter::none()), ears.abort_handle())
}

// ---------------------------------------------------------------- links

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// user to marshal, user to broker, broker to broker
    Marshal,
    User,
    Broker,
}

pub struct Link {
    pub kind: Kind,
    /// the key of a user (0: not known yet), or the broker that dialled
    pub from: u64,
    /// the broker dialled (marshal: 0)
    pub to: u64,
    /// whether the dialled side still holds its end, and the dialling side its
    pub there: bool,
    pub here: bool,
    pumps: Vec<AbortHandle>,
}

#[derive(Default)]
pub struct State {
    listeners: HashMap<String, mpsc::UnboundedSender<(DuplexStream, DuplexStream)>>,
    pub links: Vec<Link>,
    /// the broker that last asked for the others: it dials them at once
    pub dialler: u64,
    /// longest delay on a link (ms)
    pub latency: u64,
    seed: u64,
}

impl State {
    pub fn cut(&mut self, which: impl Fn(&Link) -> bool) {
        for l in &mut self.links {
            if which(l) {
                l.pumps.drain(..).for_each(|p| p.abort());
                (l.here, l.there) = (false, false);
            }
        }
    }
    pub fn unlisten(&mut self, endpoint: &str) {
        self.listeners.remove(endpoint);
    }
}

static NETS: OnceLock<Mutex<HashMap<String, Arc<Mutex<State>>>>> = OnceLock::new();

pub fn net(world: &str) -> Arc<Mutex<State>> {
    NETS.get_or_init(Mutex::default).lock().entry(world.to_string()).or_default().clone()
}
pub fn drop_net(world: &str) {
    NETS.get_or_init(Mutex::default).lock().remove(world);
}

/// The world of an endpoint that is on this network
fn on_net(endpoint: &str) -> Option<String> {
    endpoint.split('-').nth(1).filter(|w| w.starts_with("net")).map(str::to_string)
}

/// Reads one frame: who is it?
fn introduces(world: &str, frame: &[u8]) -> u64 {
    match Message::deserialize(&Bytes::from_unchecked(frame.to_vec())) {
        Ok(Message::AuthenticateWithKey(a)) => key_of(&a.public_key),
        Ok(Message::AuthenticateWithPermit(p)) => {
            disc(world).lock().ever.get(&p.permit).map_or(0, |(_, k)| *k)
        }
        _ => 0,
    }
}

async fn pump(
    mut from: DuplexStream,
    mut to: DuplexStream,
    net: Arc<Mutex<State>>,
    n: usize,
    forward: bool,
    world: String,
) {
    let (mut rng, latency, kind) = {
        let mut s = net.lock();
        s.seed += 1;
        (StdRng::seed_from_u64(s.seed), s.latency, s.links[n].kind)
    };
    let mut seen: Option<Vec<u8>> = (forward && kind != Kind::Broker).then(Vec::new);
    let mut buf = vec![0; 8192];
    loop {
        match from.read(&mut buf).await {
            Ok(k) if k > 0 => {
                if let Some(s) = &mut seen {
                    s.extend_from_slice(&buf[..k]);
                    if s.len() >= 4 {
                        let len = u32::from_be_bytes(s[..4].try_into().unwrap()) as usize;
                        if s.len() >= 4 + len {
                            net.lock().links[n].from = introduces(&world, &s[4..4 + len]);
                            seen = None;
                        }
                    }
                }
                if latency > 0 {
                    sleep(Duration::from_millis(rng.gen_range(0..=latency))).await;
                }
                if to.write_all(&buf[..k]).await.is_err() {
                    break;
                }
            }
            _ => {
                // this end is gone
                let mut s = net.lock();
                if forward {
                    s.links[n].here = false;
                } else {
                    s.links[n].there = false;
                }
                break;
            }
        }
    }
}

#[async_trait]
impl Protocol for Net {
    type UnfinalizedConnection = NetUnfinalized;
    type Listener = NetListener;

    async fn connect(remote_endpoint: &str, use_local_authority: bool, limiter: Limiter) -> Result<Connection> {
        let Some(world) = on_net(remote_endpoint) else {
            return Memory::connect(remote_endpoint, use_local_authority, limiter).await;
        };
        let net = net(&world);
        let latency = net.lock().latency;
        if latency > 0 {
            sleep(Duration::from_millis(latency)).await;
        }
        let mut s = net.lock();
        let Some(l) = s.listeners.get(remote_endpoint) else {
            return Err(Error::Connection("connection refused".into()));
        };
        let ((a1, a2), (b1, b2), (c1, c2), (d1, d2)) = (duplex(8192), duplex(8192), duplex(8192), duplex(8192));
        if l.send((c1, b2)).is_err() {
            return Err(Error::Connection("connection refused".into()));
        }
        let kind = if remote_endpoint.ends_with("-pub") {
            Kind::User
        } else if remote_endpoint.ends_with("-prv") {
            Kind::Broker
        } else {
            Kind::Marshal
        };
        let from = if kind == Kind::Broker { s.dialler } else { 0 };
        let to = if kind == Kind::Marshal { 0 } else { remote_endpoint[1..].split('-').next().unwrap().parse().unwrap() };
        let n = s.links.len();
        s.links.push(Link { kind, from, to, there: true, here: true, pumps: vec![] });
        drop(s);
        let p1 = tokio::spawn(pump(a2, b1, net.clone(), n, true, world.clone())).abort_handle();
        let p2 = tokio::spawn(pump(c2, d1, net.clone(), n, false, world)).abort_handle();
        net.lock().links[n].pumps = vec![p1, p2];
        Ok(Connection::verif_from_duplex(a1, d2, limiter))
    }

    async fn bind(
        bind_endpoint: &str,
        certificate: CertificateDer<'static>,
        key: PrivateKeyDer<'static>,
    ) -> Result<NetListener> {
        let Some(world) = on_net(bind_endpoint) else {
            let (tx, rx) = mpsc::unbounded_channel();
            RAWS.get_or_init(Mutex::default).lock().insert(bind_endpoint.to_string(), tx);
            return Ok(NetListener::Mem(
                Memory::bind(bind_endpoint, certificate, key).await?,
                fails(bind_endpoint),
                AMutex::new(rx),
            ));
        };
        let (tx, rx) = mpsc::unbounded_channel();
        net(&world).lock().listeners.insert(bind_endpoint.to_string(), tx);
        Ok(NetListener::Pipe(bind_endpoint.to_string(), AMutex::new(rx)))
    }
}

#[async_trait]
impl Listener<NetUnfinalized> for NetListener {
    async fn accept(&self) -> Result<NetUnfinalized> {
        match self {
            NetListener::Mem(l, fails, raws) => tokio::select! {
                biased;
                r = async { raws.lock().await.recv().await } => match r {
                    Some(Raw::Stuck) => Ok(NetUnfinalized::Stuck),
                    Some(Raw::Pipe(w, r)) => Ok(NetUnfinalized::Pipe(w, r)),
                    None => std::future::pending().await,
                },
                p = fails.acquire() => {
                    p.unwrap().forget();
                    Err(Error::Connection("too many open files".into()))
                }
                c = l.accept() => Ok(NetUnfinalized::Mem(c?)),
            },
            NetListener::Pipe(_, rx) => match rx.lock().await.recv().await {
                Some((w, r)) => Ok(NetUnfinalized::Pipe(w, r)),
                // nobody can reach this any more
                None => std::future::pending().await,
            },
        }
    }
}

#[async_trait]
impl UnfinalizedConnection for NetUnfinalized {
    async fn finalize(self, limiter: Limiter) -> Result<Connection> {
        match self {
            NetUnfinalized::Mem(c) => c.finalize(limiter).await,
            NetUnfinalized::Stuck => std::future::pending().await,
            NetUnfinalized::Pipe(w, r) => Ok(Connection::verif_from_duplex(w, r, limiter)),
        }
    }
}
