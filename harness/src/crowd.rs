//! One real client used by several tasks on several threads at once; the harness plays the marshal and the broker.

use std::{
    sync::{
        atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering},
        Arc,
    },
    time::Duration,
};

use cdn_client::{Client, Config};
use cdn_proto::{
    connection::{
        limiter::Limiter,
        protocols::{memory::Memory, Connection, Listener as _, Protocol as _, UnfinalizedConnection as _},
        Bytes,
    },
    crypto::tls::{generate_cert_from_ca, LOCAL_CA_CERT, LOCAL_CA_KEY},
    message::{AuthenticateResponse, Message},
};
use parking_lot::Mutex;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use tokio::{
    task::{AbortHandle, JoinSet},
    time::{sleep, timeout},
};

use crate::common::*;

static WORLD: AtomicU64 = AtomicU64::new(0);
const MARK: u64 = 999_000_000;

struct Session {
    got: Vec<Value>,
    marked: bool,
    over: bool,
    task: AbortHandle,
}
#[derive(Default)]
struct World {
    /// attempts so far, how many of them are under way, and were at most at once
    attempts: AtomicI64,
    open: AtomicI64,
    most: AtomicI64,
    odd: AtomicI64,
    ses: Mutex<Vec<Session>>,
}

fn raw(m: Message) -> Bytes {
    Bytes::from_unchecked(m.serialize().unwrap())
}
async fn next(c: &Connection) -> Option<Message> {
    Message::deserialize(&c.recv_message_raw().await.ok()?).ok()
}

/// Whatever became of it, an attempt is over when its connection is.
struct Attempt(Arc<World>);
impl Attempt {
    fn new(w: &Arc<World>) -> Self {
        w.attempts.fetch_add(1, Ordering::SeqCst);
        let n = w.open.fetch_add(1, Ordering::SeqCst) + 1;
        w.most.fetch_max(n, Ordering::SeqCst);
        Self(w.clone())
    }
}
impl Drop for Attempt {
    fn drop(&mut self) {
        self.0.open.fetch_sub(1, Ordering::SeqCst);
    }
}

async fn marshal(w: Arc<World>, c: Connection, broker: String) {
    let a = Attempt::new(&w);
    if let Some(Message::AuthenticateWithKey(_)) = next(&c).await {
        // gone to the broker
        drop(a);
        let _ = c.send_message_raw(raw(Message::AuthenticateResponse(AuthenticateResponse { permit: 9, context: broker }))).await;
        while c.recv_message_raw().await.is_ok() {}
    } else {
        w.odd.fetch_add(1, Ordering::SeqCst);
    }
}

async fn broker(w: Arc<World>, c: Connection) {
    let Some(Message::AuthenticateWithPermit(_)) = next(&c).await else {
        w.odd.fetch_add(1, Ordering::SeqCst);
        return;
    };
    let j = w.ses.lock().len();
    let w2 = w.clone();
    let (tx, rx) = tokio::sync::oneshot::channel::<()>();
    let task = tokio::spawn(async move {
        let _ = rx.await;
        let _ = c.send_message_raw(raw(Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: String::new() }))).await;
        while let Ok(r) = c.recv_message_raw().await {
            let v = match Message::deserialize(&r) {
                Ok(Message::Subscribe(t)) => json!({"t": "sub", "id": 0, "topics": t}),
                Ok(Message::Unsubscribe(t)) => json!({"t": "unsub", "id": 0, "topics": t}),
                Ok(Message::Broadcast(b)) => match unpayload(&b.message).0 {
                    MARK => {
                        w2.ses.lock()[j].marked = true;
                        continue;
                    }
                    id => json!({"t": "msg", "id": id, "topics": b.topics}),
                },
                _ => json!({"t": "odd", "id": 0, "topics": []}),
            };
            w2.ses.lock()[j].got.push(v);
        }
        w2.ses.lock()[j].over = true;
    });
    w.ses.lock().push(Session { got: vec![], marked: false, over: false, task: task.abort_handle() });
    let _ = tx.send(());
    let _ = task.await;
}

async fn listen(w: Arc<World>, at: String, next: Option<String>) -> AbortHandle {
    let (cert, key) = generate_cert_from_ca(LOCAL_CA_CERT, LOCAL_CA_KEY).unwrap();
    let l = Memory::bind(&at, cert, key).await.unwrap();
    tokio::spawn(async move {
        while let Ok(u) = l.accept().await {
            if let Ok(c) = u.finalize(Limiter::none()).await {
                match &next {
                    Some(b) => drop(tokio::spawn(marshal(w.clone(), c, b.clone()))),
                    None => drop(tokio::spawn(broker(w.clone(), c))),
                }
            }
        }
    })
    .abort_handle()
}

pub async fn random_trace(seed: u64) -> Value {
    let mut r = StdRng::seed_from_u64(seed);
    let name = format!("crowd{}", WORLD.fetch_add(1, Ordering::SeqCst));
    let w: Arc<World> = Arc::default();
    let servers = [
        listen(w.clone(), format!("{name}-b"), None).await,
        listen(w.clone(), format!("{name}-m"), Some(format!("{name}-b"))).await,
    ];
    let subs: Vec<u8> = (0..r.gen_range(0..3)).collect();
    let client = Client::<Conn>::new(Config {
        endpoint: format!("{name}-m"),
        use_local_authority: true,
        keypair: keypair(1),
        subscribed_topics: subs.clone(),
    });
    let kind = *["calm", "calm", "cuts", "cuts", "close"].choose(&mut r).unwrap();
    let closed = Arc::new(AtomicBool::new(false));
    let threads = r.gen_bool(0.5);
    let mut set = JoinSet::new();
    for k in 1..=r.gen_range(1..6u64) {
        let (c, closed) = (client.clone(), closed.clone());
        let mut r = StdRng::seed_from_u64(seed ^ (k << 40));
        let len = r.gen_range(2..20);
        let work = async move {
            let mut calls = vec![];
            for i in 0..len {
                let id = k * 10_000 + i;
                let topics: Vec<u8> = (0..4).filter(|_| r.gen_bool(0.4)).map(|t| (k * 10 + t) as u8).collect();
                let what = if i == 0 || (kind != "calm" && r.gen_bool(0.2)) { "init" } else { *["send", "send", "sub", "unsub", "flush"].choose(&mut r).unwrap() };
                let after = closed.load(Ordering::SeqCst);
                let res = timeout(Duration::from_secs(30), async {
                    match what {
                        "init" => c.ensure_initialized().await,
                        "send" => c.send_broadcast_message(vec![k as u8], payload(id, 0, 0)).await,
                        "sub" => c.subscribe(topics.clone()).await,
                        "unsub" => c.unsubscribe(topics.clone()).await,
                        _ => c.soft_close().await,
                    }
                })
                .await;
                let res = res.map_or("stuck", |r| if r.is_ok() { "ok" } else { "err" });
                calls.push(json!({"k": what, "id": id, "topics": topics, "r": res, "after": after}));
                if r.gen_bool(0.2) {
                    sleep(Duration::from_micros(r.gen_range(0..400))).await;
                }
            }
            (k, calls)
        };
        if threads {
            // each on a thread of its own, of which the runtime knows nothing
            let h = tokio::runtime::Handle::current();
            set.spawn_blocking(move || h.block_on(work));
        } else {
            set.spawn(work);
        }
    }
    // somebody who listens
    let listener = (kind != "calm" && r.gen_bool(0.5)).then(|| {
        let c = client.clone();
        tokio::spawn(async move {
            while !c.is_closed() {
                if c.receive_message().await.is_err() {
                    tokio::task::yield_now().await;
                }
            }
        })
    });
    let mut took = 0;
    match kind {
        "cuts" => {
            for _ in 0..r.gen_range(1..6) {
                sleep(Duration::from_micros(r.gen_range(0..1500))).await;
                // never in the middle of an attempt, after which the client pauses: only what has begun
                if let Some(s) = w.ses.lock().iter().rev().find(|s| !s.over && !s.got.is_empty()) {
                    s.task.abort();
                }
            }
        }
        "close" => {
            sleep(Duration::from_micros(r.gen_range(0..2500))).await;
            let t0 = std::time::Instant::now();
            let _ = timeout(Duration::from_secs(20), client.close()).await;
            took = t0.elapsed().as_millis() as u64;
            closed.store(true, Ordering::SeqCst);
        }
        _ => {}
    }
    let mut ev = vec![json!({"op": "init", "subs": subs, "kind": kind})];
    let mut tasks = vec![];
    while let Some(t) = set.join_next().await {
        tasks.push(t.unwrap());
    }
    tasks.sort_by_key(|t| t.0);
    ev.extend(tasks.into_iter().map(|(k, calls)| json!({"op": "task", "k": k, "calls": calls})));
    let mut using = 0;
    let mut more = 0;
    if kind == "close" {
        let n = w.attempts.load(Ordering::SeqCst);
        // whatever was open is closed
        for _ in 0..500 {
            if w.ses.lock().iter().all(|s| s.over) && w.open.load(Ordering::SeqCst) == 0 {
                break;
            }
            sleep(Duration::from_millis(10)).await;
        }
        sleep(Duration::from_millis(5)).await;
        more = w.attempts.load(Ordering::SeqCst) - n;
    } else {
        // which session is in use: the one that gets this
        'found: for _ in 0..100 {
            let _ = timeout(Duration::from_secs(30), client.ensure_initialized()).await;
            let _ = client.send_broadcast_message(vec![0], payload(MARK, 0, 0)).await;
            for _ in 0..20 {
                if let Some(j) = w.ses.lock().iter().rposition(|s| s.marked) {
                    using = j + 1;
                    break 'found;
                }
                sleep(Duration::from_millis(2)).await;
            }
        }
    }
    if let Some(l) = listener {
        l.abort();
    }
    let ses: Vec<_> = w.ses.lock().iter().map(|s| s.got.clone()).collect();
    ev.push(json!({"op": "final", "using": using, "ses": ses, "attempts": w.attempts.load(Ordering::SeqCst), "most": w.most.load(Ordering::SeqCst),
        "odd": w.odd.load(Ordering::SeqCst), "more": more, "took": took, "left": w.ses.lock().iter().filter(|s| !s.over).count()}));
    client.close().await;
    servers.iter().for_each(AbortHandle::abort);
    json!({ "ev": ev })
}
