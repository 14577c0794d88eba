mod broker;
mod cdn;
mod client;
mod clock;
mod codec;
mod common;
mod crowd;
mod disco;
mod gauges;
mod marshal;
mod mesh;
mod net;
mod proto;
mod redis;
mod tls;
mod vmap;
mod wire;

use std::collections::HashMap;

use serde_json::{json, Value};

fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mode = args.next().expect("mode");
    let mut o: HashMap<String, String> = HashMap::new();
    while let Some(k) = args.next() {
        o.insert(k.trim_start_matches("--").to_string(), args.next().unwrap_or_default());
    }
    if std::env::var("RUST_LOG").is_ok() {
        tracing_subscriber::fmt().with_env_filter(tracing_subscriber::EnvFilter::from_default_env()).with_writer(std::io::stderr).init();
    }
    let num = |k: &str, d: u64| o.get(k).map_or(d, |v| v.parse().unwrap());
    let get = |k: &str, d: &str| o.get(k).cloned().unwrap_or_else(|| d.to_string());
    let (seed, n, len) = (num("seed", 1), num("n", 1), num("len", 30) as usize);
    let mut traces: Vec<Value> = vec![];
    if ["broker", "broker-ops", "marshal", "marshal-ops", "client", "client-ops", "cdn", "cdn-ops"].contains(&mode.as_str()) {
        clock::freeze(0);
    }
    match mode.as_str() {
        "broker" => {
            for i in 0..n {
                let rt = runtime();
                let t = rt.block_on(broker::random_trace(seed.wrapping_mul(1_000_003).wrapping_add(i), len, &get("profile", "all")));
                traces.push(t);
                rt.shutdown_background();
            }
        }
        "broker-flood" => {
            for i in 0..n {
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
                traces.push(rt.block_on(broker::flood_trace(seed.wrapping_mul(1_000_003).wrapping_add(i), len)));
                rt.shutdown_timeout(std::time::Duration::from_secs(10));
            }
        }
        "broker-race" => {
            for i in 0..n {
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
                traces.push(rt.block_on(broker::race_trace(seed.wrapping_mul(1_000_003).wrapping_add(i), len)));
                rt.shutdown_timeout(std::time::Duration::from_secs(10));
            }
        }
        "broker-ops" => {
            let scripts: Vec<Vec<Value>> = serde_json::from_str(&std::fs::read_to_string(&o["in"]).unwrap()).unwrap();
            for s in scripts {
                let rt = runtime();
                traces.push(rt.block_on(broker::run_ops(&s)));
                rt.shutdown_background();
            }
        }
        "marshal" => {
            for i in 0..n {
                let rt = runtime();
                traces.push(rt.block_on(marshal::random_trace(seed.wrapping_mul(1_000_003).wrapping_add(i), len)));
                rt.shutdown_background();
            }
        }
        "marshal-ops" => {
            let scripts: Vec<Vec<Value>> = serde_json::from_str(&std::fs::read_to_string(&o["in"]).unwrap()).unwrap();
            for s in scripts {
                let rt = runtime();
                traces.push(rt.block_on(marshal::run_ops(&s)));
                rt.shutdown_background();
            }
        }
        "client" => {
            for i in 0..n {
                let rt = runtime();
                traces.push(rt.block_on(client::random_trace(seed.wrapping_mul(1_000_003).wrapping_add(i), len)));
                rt.shutdown_background();
            }
        }
        "client-ops" => {
            let scripts: Vec<Vec<Value>> = serde_json::from_str(&std::fs::read_to_string(&o["in"]).unwrap()).unwrap();
            for s in scripts {
                let rt = runtime();
                traces.push(rt.block_on(client::run_ops(&s)));
                rt.shutdown_background();
            }
        }
        "cdn" => {
            for i in 0..n {
                let rt = runtime();
                traces.push(rt.block_on(cdn::random_trace(seed.wrapping_mul(1_000_003).wrapping_add(i), len)));
                rt.shutdown_background();
            }
        }
        "cdn-ops" => {
            let scripts: Vec<Vec<Value>> = serde_json::from_str(&std::fs::read_to_string(&o["in"]).unwrap()).unwrap();
            for s in scripts {
                let rt = runtime();
                traces.push(rt.block_on(cdn::run_ops(&s)));
                rt.shutdown_background();
            }
        }
        "mesh" | "mesh-ops" => {
            let rt = runtime();
            let _in = rt.enter();
            if mode == "mesh" {
                for i in 0..n {
                    traces.push(mesh::random_trace(seed.wrapping_mul(1_000_003).wrapping_add(i), len, &get("profile", "all")));
                }
            } else {
                let scripts: Vec<Vec<Value>> = serde_json::from_str(&std::fs::read_to_string(&o["in"]).unwrap()).unwrap();
                traces.extend(scripts.iter().map(|s| mesh::run_ops(s)));
            }
        }
        "codec" => {
            for i in 0..n {
                traces.push(codec::random_trace(seed.wrapping_mul(1_000_003).wrapping_add(i), len));
            }
        }
        "codec-ops" => {
            let scripts: Vec<Vec<Value>> = serde_json::from_str(&std::fs::read_to_string(&o["in"]).unwrap()).unwrap();
            traces.extend(scripts.iter().map(|s| codec::run_ops(s)));
        }
        "vmap" => {
            for i in 0..n {
                traces.push(vmap::random_trace(seed.wrapping_mul(1_000_003).wrapping_add(i), len));
            }
        }
        "vmap-ops" => {
            let scripts: Vec<Vec<Value>> = serde_json::from_str(&std::fs::read_to_string(&o["in"]).unwrap()).unwrap();
            traces.extend(scripts.iter().map(|s| vmap::run_ops(s)));
        }
        "wire" | "link" => {
            for i in 0..n {
                let rt = runtime();
                let seed = seed.wrapping_mul(1_000_003).wrapping_add(i);
                traces.push(if mode == "wire" { rt.block_on(wire::random_trace(seed, len)) } else { rt.block_on(wire::link_random(seed, len)) });
                rt.shutdown_background();
            }
        }
        "wire-ops" | "link-ops" => {
            let scripts: Vec<Vec<Value>> = serde_json::from_str(&std::fs::read_to_string(&o["in"]).unwrap()).unwrap();
            for s in scripts {
                let rt = runtime();
                traces.push(if mode == "wire-ops" { rt.block_on(wire::run_ops(&s)) } else { rt.block_on(wire::link_ops(&s)) });
                rt.shutdown_background();
            }
        }
        "proto" => {
            let p = get("profile", "tcp");
            for i in 0..n {
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
                traces.push(rt.block_on(proto::random_trace(seed.wrapping_mul(1_000_003).wrapping_add(i), &p)));
                rt.shutdown_background();
            }
        }
        "proto-dam" => {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
            // nearly all of it is waiting
            let tasks: Vec<_> = (0..n).map(|i| rt.spawn(proto::dam(seed.wrapping_mul(1_000_003).wrapping_add(i)))).collect();
            for t in tasks {
                traces.push(rt.block_on(t).unwrap());
            }
            rt.shutdown_background();
        }
        "crowd" => {
            for i in 0..n {
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
                traces.push(rt.block_on(crowd::random_trace(seed.wrapping_mul(1_000_003).wrapping_add(i))));
                rt.shutdown_background();
            }
        }
        // what they look at is the whole process's
        "metrics" | "metrics-ops" => {
            let scripts: Vec<Vec<Value>> = if mode == "metrics" {
                (0..n).map(|i| gauges::random_ops(seed.wrapping_mul(1_000_003).wrapping_add(i), len)).collect()
            } else {
                serde_json::from_str(&std::fs::read_to_string(&o["in"]).unwrap()).unwrap()
            };
            for s in scripts {
                traces.push(runtime().block_on(gauges::run_ops(&s)));
            }
        }
        "tls" | "tls-ops" => {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
            let scripts: Vec<Vec<Value>> = if mode == "tls" {
                (0..n).map(|i| tls::random_ops(seed.wrapping_mul(1_000_003).wrapping_add(i), len)).collect()
            } else {
                serde_json::from_str(&std::fs::read_to_string(&o["in"]).unwrap()).unwrap()
            };
            // much of it is waiting
            let slots = std::sync::Arc::new(tokio::sync::Semaphore::new(12));
            let tasks: Vec<_> = scripts
                .into_iter()
                .map(|s| {
                    let slots = slots.clone();
                    rt.spawn(async move {
                        let _slot = slots.acquire().await;
                        tls::run_ops(s).await
                    })
                })
                .collect();
            for t in tasks {
                traces.push(rt.block_on(t).unwrap());
            }
            rt.shutdown_background();
        }
        "disco" | "disco-ops" => {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
            let scripts: Vec<Vec<Value>> = if mode == "disco" {
                (0..n).map(|i| disco::random_ops(seed.wrapping_mul(1_000_003).wrapping_add(i), len, &get("profile", "all"))).collect()
            } else {
                serde_json::from_str(&std::fs::read_to_string(&o["in"]).unwrap()).unwrap()
            };
            for s in scripts {
                traces.push(rt.block_on(disco::run_ops(&s)));
            }
            rt.shutdown_background();
        }
        m => panic!("unknown mode {m}"),
    }
    std::fs::write(&o["out"], serde_json::to_string(&json!(traces)).unwrap()).unwrap();
}
