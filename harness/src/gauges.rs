//! What is published about a process: counters, latencies, and the page they are read from.

use std::{
    io::{Read as _, Write as _},
    net::{SocketAddr, TcpListener as StdTcp, TcpStream},
    time::{Duration, Instant},
};

use cdn_proto::{
    connection::{limiter::Limiter, metrics, protocols::Connection, Bytes},
    metrics::{running_latency_calculator, serve_metrics},
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use tokio::{
    io::duplex,
    time::{sleep, timeout},
};

use crate::tls;

const WINDOW: Duration = Duration::from_secs(30);
const NAMES: [&str; 7] =
    ["total_bytes_sent", "total_bytes_recv", "latency_sum", "latency_count", "running_latency", "num_users_connected", "num_brokers_connected"];

fn micro(x: f64) -> i64 {
    (x * 1e6).round() as i64
}

/// One reading of the page; what is not on it (before it is first touched) is 0.
pub fn scrape(at: SocketAddr) -> Option<Vec<i64>> {
    let mut s = TcpStream::connect_timeout(&at, Duration::from_secs(5)).ok()?;
    s.set_read_timeout(Some(Duration::from_secs(5))).ok()?;
    s.write_all(b"GET /metrics HTTP/1.0\r\n\r\n").ok()?;
    let mut text = String::new();
    s.read_to_string(&mut text).ok()?;
    if !text.starts_with("HTTP/1.0 200") && !text.starts_with("HTTP/1.1 200") {
        return None;
    }
    let value = |name: &str| text.lines().find_map(|l| l.strip_prefix(name)?.strip_prefix(' ')?.trim().parse::<f64>().ok());
    Some(NAMES.iter().map(|n| value(n).map_or(0, |v| if n.starts_with("l") || n.starts_with("r") { micro(v) } else { v as i64 })).collect())
}

fn gathered(name: &str) -> i64 {
    let base = name.trim_end_matches("_sum").trim_end_matches("_count");
    let Some(f) = prometheus::gather().into_iter().find(|f| f.get_name() == base) else { return 0 };
    let m = &f.get_metric()[0];
    if name.ends_with("_sum") {
        micro(m.get_histogram().get_sample_sum())
    } else if name.ends_with("_count") {
        micro(m.get_histogram().get_sample_count() as f64)
    } else if name == "running_latency" {
        micro(m.get_gauge().get_value())
    } else {
        m.get_gauge().get_value() as i64
    }
}

pub fn free() -> SocketAddr {
    StdTcp::bind("127.0.0.1:0").unwrap().local_addr().unwrap()
}

/// In a runtime of its own, in real time.
fn apart<T: Send + 'static>(f: impl FnOnce(&tokio::runtime::Runtime) -> T + Send + 'static) -> T {
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
        let r = f(&rt);
        rt.shutdown_timeout(Duration::from_secs(5));
        r
    })
    .join()
    .unwrap()
}

async fn traffic(sizes: &[usize]) -> (i64, i64) {
    let before = (gathered(NAMES[0]), gathered(NAMES[1]));
    let ((a, b), (c, d)) = (duplex(8192), duplex(8192));
    let (x, y) = (Connection::verif_from_duplex(a, d, Limiter::none()), Connection::verif_from_duplex(c, b, Limiter::none()));
    for n in sizes {
        let _ = x.send_message_raw(Bytes::from_unchecked(vec![3; *n])).await;
        let _ = timeout(Duration::from_secs(1), y.recv_message_raw()).await;
    }
    let _ = timeout(Duration::from_secs(1), x.soft_close()).await;
    (gathered(NAMES[0]) - before.0, gathered(NAMES[1]) - before.1)
}

pub async fn run_ops(ops: &[Value]) -> Value {
    let calculator = tokio::spawn(running_latency_calculator());
    // always somewhere in the middle of a second, as the calculator never is
    sleep(WINDOW + Duration::from_millis(500)).await;
    let mut ev = vec![json!({"op": "init", "running": gathered("running_latency")})];
    let nums = |op: &Value| op["l"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect::<Vec<_>>();
    for op in ops {
        let mut e = op.clone();
        match op["op"].as_str().unwrap() {
            // in ms
            "observe" => {
                for x in nums(op) {
                    metrics::LATENCY.as_ref().unwrap().observe(x as f64 / 1000.0);
                }
            }
            "window" => {
                sleep(WINDOW).await;
                e["running"] = json!(gathered("running_latency"));
            }
            // between windows
            "look" => {
                sleep(Duration::from_secs(op["s"].as_u64().unwrap())).await;
                e["running"] = json!(gathered("running_latency"));
            }
            "traffic" => (e["sent"], e["rcvd"]) = {
                let (s, r) = traffic(&nums(op)).await;
                (json!(s), json!(r))
            },
            "hold" => {
                let pool = Limiter::new(Some(1000), None);
                let before = (gathered("latency_sum"), gathered("latency_count"));
                let t0 = Instant::now();
                let share = pool.allocate_message_bytes(10).await;
                let t1 = Instant::now();
                std::thread::sleep(Duration::from_millis(op["ms"].as_u64().unwrap()));
                let least = t1.elapsed().as_micros() as u64;
                drop(share);
                let most = t0.elapsed().as_micros() as u64;
                e["sum"] = json!(gathered("latency_sum") - before.0);
                e["count"] = json!((gathered("latency_count") - before.1) / 1_000_000);
                (e["least"], e["most"]) = (json!(least), json!(most));
            }
            "scrape" => {
                let page = apart(|rt| {
                    for _ in 0..50 {
                        let at = free();
                        let task = rt.spawn(serve_metrics(at));
                        for _ in 0..100 {
                            if let Some(p) = scrape(at) {
                                return p;
                            }
                            if task.is_finished() {
                                break;
                            }
                            std::thread::sleep(Duration::from_millis(20));
                        }
                    }
                    vec![]
                });
                let fold = |v: Vec<i64>| v.into_iter().map(|x| json!([x / 1_000_000, x % 1_000_000])).collect::<Vec<_>>();
                e["page"] = json!(fold(page[..page.len().min(5)].to_vec()));
                e["true"] = json!(fold(NAMES[..5].iter().map(|n| gathered(n)).collect()));
            }
            "live" => e["r"] = apart(|rt| rt.block_on(tls::live())),
            x => panic!("{x}"),
        }
        ev.push(e);
    }
    calculator.abort();
    json!({ "ev": ev })
}

pub fn random_ops(seed: u64, len: usize) -> Vec<Value> {
    let mut r = StdRng::seed_from_u64(seed);
    let mut ops = vec![];
    let mut since = 0;
    for _ in 0..len {
        match r.gen_range(0..40) {
            0..=13 => {
                let n = *[0usize, 1, 1, 2, 5, 40].choose(&mut r).unwrap();
                let top = *[1u64, 50, 3000, 60_000].choose(&mut r).unwrap();
                ops.push(json!({"op": "observe", "l": (0..n).map(|_| r.gen_range(0..=top)).collect::<Vec<_>>()}));
            }
            14..=26 if since == 0 => ops.push(json!({"op": "window"})),
            14..=31 => {
                let s = if r.gen_bool(0.5) { 30 - since } else { r.gen_range(0..30 - since) };
                ops.push(json!({"op": "look", "s": s, "end": u8::from(since + s >= 30)}));
                since = (since + s) % 30;
            }
            32..=36 => ops.push(json!({"op": "traffic", "l": (0..r.gen_range(0..5)).map(|_| *[0u64, 1, 100, 9000, 70_000].choose(&mut r).unwrap()).collect::<Vec<_>>()})),
            37 | 38 => ops.push(json!({"op": "hold", "ms": r.gen_range(0..12)})),
            _ if r.gen_bool(0.6) => ops.push(json!({"op": "scrape"})),
            _ if r.gen_bool(0.3) => ops.push(json!({"op": "live"})),
            _ => {}
        }
    }
    ops
}
