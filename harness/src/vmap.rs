//! The versioned maps themselves: up to three of one kind, with scripted or random local changes, differences
//! and merges (also late, repeated and out of order). After each operation the whole contents are recorded.

use cdn_broker::verif::{DirectMap, SubscriptionStatus, TopicSyncMap};
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value};

use crate::common::{bid, user_key};

const MAXVER: usize = 24;

macro_rules! world {
    ($name:ident, $map:ty, $key:expr, $val:expr, $id:expr) => {
        fn $name(ops: &[Value]) -> Value {
            let key = $key;
            let val = $val;
            // value -> a map for each version
            let mut refs: Vec<Vec<$map>> = vec![];
            for x in 0..=3u64 {
                let mut of = vec![];
                for n in 1..=MAXVER {
                    let mut m = <$map>::new($id(1));
                    for _ in 1..n {
                        m.insert(key(0), val(1));
                        m.diff();
                    }
                    if x == 0 {
                        m.remove(key(0));
                    } else {
                        m.insert(key(0), val(x));
                    }
                    of.push(m);
                }
                refs.push(of);
            }
            let entries = |m: &$map| -> Value {
                let mut out: Vec<[u64; 3]> = vec![];
                for (k, vv) in &m.underlying_map {
                    let kn = (0..=9u64).find(|n| key(*n) == *k).unwrap_or(999);
                    let mut e = [kn, 999, 999];
                    for (x, of) in refs.iter().enumerate() {
                        for (i, r) in of.iter().enumerate() {
                            if e[1] == 999 && r.underlying_map.get(&key(0)) == Some(vv) {
                                e = [kn, i as u64 + 1, x as u64];
                            }
                        }
                    }
                    out.push(e);
                }
                out.sort_unstable();
                json!(out)
            };
            let wire = |m: $map| -> $map {
                let b = rkyv::to_bytes::<_, 2048>(&m).unwrap();
                rkyv::from_bytes::<$map>(&b).unwrap()
            };
            let mut maps: Vec<$map> = vec![];
            let mut kept: Vec<$map> = vec![];
            let mut ev: Vec<Value> = vec![];
            for op in ops {
                let mut e = op.clone();
                let m = op["m"].as_u64().unwrap_or(1) as usize - 1;
                let n = op["n"].as_u64().unwrap_or(1) as usize - 1;
                let k = op["k"].as_u64().unwrap_or(1);
                let x = op["v"].as_u64().unwrap_or(1);
                let mut incoming: Option<$map> = None;
                match op["op"].as_str().unwrap() {
                    "init" => {
                        for i in op["ids"].as_array().unwrap() {
                            maps.push(<$map>::new($id(i.as_u64().unwrap())));
                        }
                    }
                    "ins" => maps[m].insert(key(k), val(x)),
                    "rem" => maps[m].remove(key(k)),
                    "rie" => maps[m].remove_if_equals(key(k), val(x)),
                    "rbv" => maps[m].remove_by_value_no_modify(&val(x)),
                    "diff" => {
                        let d = maps[m].diff();
                        e["ret"] = entries(&d);
                        kept.push(d);
                    }
                    "full" => {
                        let d = maps[m].get_full();
                        e["ret"] = entries(&d);
                        kept.push(d);
                    }
                    "mfull" => incoming = Some(wire(maps[n].get_full())),
                    "mdiff" => incoming = Some(wire(maps[n].diff())),
                    "mold" => incoming = Some(wire(kept[op["d"].as_u64().unwrap() as usize - 1].clone())),
                    o => panic!("{o}"),
                }
                if let Some(i) = incoming {
                    let mut ch: Vec<[u64; 2]> = maps[m]
                        .merge(i)
                        .into_iter()
                        .map(|(k, v)| {
                            [
                                (0..=9u64).find(|n| key(*n) == k).unwrap_or(999),
                                v.map_or(0, |v| (1..=3u64).find(|x| val(*x) == v).unwrap_or(999)),
                            ]
                        })
                        .collect();
                    ch.sort_unstable();
                    e["ret"] = json!(ch);
                }
                e["st"] = json!(maps.iter().map(&entries).collect::<Vec<_>>());
                e["get"] = json!(maps
                    .iter()
                    .map(|m| (1..=3u64)
                        .map(|k| m.get(&key(k)).map_or(0, |v| (1..=3u64).find(|x| val(*x) == *v).unwrap_or(999)))
                        .collect::<Vec<_>>())
                    .collect::<Vec<_>>());
                e["empty"] = json!(maps.iter().map(|m| m.is_empty()).collect::<Vec<_>>());
                ev.push(e);
            }
            json!({ "ev": ev })
        }
    };
}

world!(direct, DirectMap, |k: u64| user_key(k), |x: u64| bid("w", x), |i: u64| bid("w", i));
world!(
    topics,
    TopicSyncMap,
    |k: u64| k as u8,
    // two values only; the third is not used with this kind
    |x: u64| if x == 1 { SubscriptionStatus::Subscribed } else { SubscriptionStatus::Unsubscribed },
    |i: u64| i as u32
);

pub fn run_ops(ops: &[Value]) -> Value {
    if ops[0]["type"] == "t" {
        topics(ops)
    } else {
        direct(ops)
    }
}

pub fn random_trace(seed: u64, len: usize) -> Value {
    let mut r = StdRng::seed_from_u64(seed);
    let t = r.gen_bool(0.25);
    let ids = if t && r.gen_bool(0.5) { vec![1, 1, 1] } else { vec![1, 2, 3] };
    let vals = if t { 2 } else { 3 };
    let mut ops = vec![json!({"op": "init", "type": if t { "t" } else { "d" }, "ids": ids})];
    let keys = r.gen_range(1..=3u64);
    // how often a map takes its differences and merges varies, so that both many and few edits lie between
    let edit = r.gen_range(2..8);
    let mut kept = 0u64;
    for _ in 0..len {
        let m = r.gen_range(1..=3u64);
        let n = (m + r.gen_range(1..=2) - 1) % 3 + 1;
        let (k, x) = (r.gen_range(1..=keys), r.gen_range(1..=vals));
        ops.push(if r.gen_range(0..10) < edit {
            match r.gen_range(0..8) {
                0..=3 => json!({"op": "ins", "m": m, "k": k, "v": x}),
                4 | 5 => json!({"op": "rem", "m": m, "k": k}),
                6 => json!({"op": "rie", "m": m, "k": k, "v": x}),
                _ if r.gen_bool(0.4) => json!({"op": "rbv", "m": m, "v": x}),
                _ => json!({"op": "ins", "m": m, "k": k, "v": x}),
            }
        } else {
            match r.gen_range(0..7) {
                0 => {
                    kept += 1;
                    json!({"op": "diff", "m": m})
                }
                1 => {
                    kept += 1;
                    json!({"op": "full", "m": m})
                }
                2 | 3 => json!({"op": "mdiff", "m": m, "n": n}),
                4 => json!({"op": "mfull", "m": m, "n": n}),
                _ if kept > 0 => json!({"op": "mold", "m": m, "d": r.gen_range(1..=kept)}),
                _ => json!({"op": "mfull", "m": m, "n": n}),
            }
        });
    }
    run_ops(&ops)
}
