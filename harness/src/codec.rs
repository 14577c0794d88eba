//! Messages and their bytes, and the names of brokers.

use std::panic::{catch_unwind, AssertUnwindSafe};

use cdn_proto::{
    discovery::BrokerIdentifier,
    message::{AuthenticateResponse, AuthenticateWithKey, AuthenticateWithPermit, Broadcast, Direct, Message},
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()
}

fn describe(m: &Message) -> Value {
    let n = |x: u64| x.to_le_bytes().to_vec();
    match m {
        Message::AuthenticateWithKey(a) => json!({"t": "key", "pk": a.public_key, "n": n(a.timestamp), "sig": a.signature}),
        Message::AuthenticateWithPermit(a) => json!({"t": "permit", "n": n(a.permit)}),
        Message::AuthenticateResponse(a) => json!({"t": "resp", "n": n(a.permit), "s": a.context.as_bytes()}),
        Message::Direct(a) => json!({"t": "direct", "to": a.recipient, "m": a.message}),
        Message::Broadcast(a) => json!({"t": "bcast", "ts": a.topics, "m": a.message}),
        Message::Subscribe(ts) => json!({"t": "sub", "ts": ts}),
        Message::Unsubscribe(ts) => json!({"t": "unsub", "ts": ts}),
        Message::UserSync(m) => json!({"t": "usync", "m": m}),
        Message::TopicSync(m) => json!({"t": "tsync", "m": m}),
    }
}

fn decode(b: &[u8]) -> Result<Message, &'static str> {
    match catch_unwind(AssertUnwindSafe(|| Message::deserialize(b))) {
        Ok(Ok(m)) => Ok(m),
        Ok(Err(_)) => Err("err"),
        Err(_) => Err("panic"),
    }
}
fn encode(m: &Message) -> Result<Vec<u8>, &'static str> {
    match catch_unwind(AssertUnwindSafe(|| m.serialize())) {
        Ok(Ok(m)) => Ok(m),
        Ok(Err(_)) => Err("err"),
        Err(_) => Err("panic"),
    }
}
fn again(m: &Message) -> u8 {
    u8::from(encode(m).is_ok_and(|b| decode(&b).is_ok_and(|x| x == *m)))
}

fn string(rng: &mut StdRng, max: usize) -> Vec<u8> {
    let n = match rng.gen_range(0..6) {
        0 => 0,
        1 => rng.gen_range(0..9),
        2 => 8 * rng.gen_range(0..4),
        _ => rng.gen_range(0..=max),
    };
    match rng.gen_range(0..4) {
        0 => vec![[0u8, 255, 47][rng.gen_range(0..3)]; n],
        _ => (0..n).map(|_| rng.gen()).collect(),
    }
}
fn number(rng: &mut StdRng) -> u64 {
    match rng.gen_range(0..6) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::from(rng.gen::<u32>()),
        4 => 1 << rng.gen_range(0..64),
        _ => rng.gen(),
    }
}
fn text(rng: &mut StdRng, max: usize) -> String {
    let n = rng.gen_range(0..=max);
    (0..n).map(|_| *['a', 'Z', '0', '.', ':', '-', 'é', '→', '𝛑', ' ', '\u{1}'].choose(rng).unwrap()).collect()
}

fn message(rng: &mut StdRng, max: usize) -> Message {
    match rng.gen_range(0..9) {
        0 => Message::AuthenticateWithKey(AuthenticateWithKey { public_key: string(rng, max), timestamp: number(rng), signature: string(rng, max) }),
        1 => Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: number(rng) }),
        2 => Message::AuthenticateResponse(AuthenticateResponse { permit: number(rng), context: text(rng, max) }),
        3 => Message::Direct(Direct { recipient: string(rng, max), message: string(rng, max) }),
        4 => Message::Broadcast(Broadcast { topics: string(rng, max.min(300)), message: string(rng, max) }),
        5 => Message::Subscribe(string(rng, max.min(300))),
        6 => Message::Unsubscribe(string(rng, max.min(300))),
        7 => Message::UserSync(string(rng, max)),
        _ => Message::TopicSync(string(rng, max)),
    }
}

fn run(op: &Value) -> Value {
    let mut e = op.clone();
    let b = bytes(&op["b"]);
    match op["op"].as_str().unwrap() {
        "enc" | "dec" | "tail" | "cut" => match decode(&b) {
            Ok(m) => {
                e["r"] = json!("ok");
                e["m"] = describe(&m);
            }
            Err(r) => e["r"] = json!(r),
        },
        "noise" => match decode(&b) {
            Ok(m) => {
                e["r"] = json!("ok");
                e["again"] = json!(again(&m));
            }
            Err(r) => e["r"] = json!(r),
        },
        "parse" => match BrokerIdentifier::try_from(String::from_utf8(b).unwrap()) {
            Ok(id) => {
                e["r"] = json!("ok");
                e["pub"] = json!(id.public_advertise_endpoint.as_bytes());
                e["prv"] = json!(id.private_advertise_endpoint.as_bytes());
            }
            Err(_) => e["r"] = json!("err"),
        },
        // what they say was found out when they were made
        _ => {}
    }
    e
}

/// Decodes what is given.
pub fn run_ops(ops: &[Value]) -> Value {
    std::panic::set_hook(Box::new(|_| {}));
    json!({"ev": ops.iter().map(run).collect::<Vec<_>>()})
}

pub fn random_trace(seed: u64, len: usize) -> Value {
    std::panic::set_hook(Box::new(|_| {}));
    let mut rng = StdRng::seed_from_u64(seed);
    let mut ev = vec![];
    for _ in 0..len {
        let max = match rng.gen_range(0..40) {
            0 => 12_000,
            1..=9 => 200,
            _ => 24,
        };
        let m = message(&mut rng, max);
        match rng.gen_range(0..8) {
            0..=2 => match encode(&m) {
                // what was put in, against its bytes; then these, against what they are decoded to
                Ok(b) => {
                    ev.push(json!({"op": "enc", "m": describe(&m), "b": b, "r": "ok"}));
                    ev.push(run(&json!({"op": "dec", "b": b})));
                }
                Err(r) => ev.push(json!({"op": "enc", "m": describe(&m), "b": [], "r": r})),
            },
            3 => {
                // far beyond one segment
                let n = match rng.gen_range(0..300) {
                    0 => 70_000_000,
                    1 => 135_000_000,
                    _ => [20_000, 70_000, 300_000, 3_000_000][rng.gen_range(0..4)],
                } + rng.gen_range(0..9usize);
                let m = match m {
                    Message::Direct(d) => Message::Direct(Direct { message: vec![rng.gen(); n], ..d }),
                    Message::Broadcast(d) => Message::Broadcast(Broadcast { message: vec![rng.gen(); n], ..d }),
                    Message::TopicSync(_) => Message::TopicSync(vec![rng.gen(); n]),
                    _ => Message::UserSync(vec![rng.gen(); n]),
                };
                let r = match encode(&m).and_then(|b| decode(&b)) {
                    Ok(x) if x == m => "same",
                    Ok(_) => "other",
                    Err(r) => r,
                };
                ev.push(json!({"op": "big", "t": describe_kind(&m), "n": n, "r": r}));
            }
            4 => {
                if let Ok(b) = encode(&m) {
                    if rng.gen() {
                        let cut = rng.gen_range(0..b.len());
                        ev.push(run(&json!({"op": "cut", "b": b[..cut]})));
                    } else {
                        let mut c = b;
                        c.extend(string(&mut rng, 24));
                        ev.push(run(&json!({"op": "tail", "b": c, "of": describe(&m)})));
                    }
                }
            }
            5 => {
                let mut b = encode(&m).unwrap_or_default();
                if rng.gen_range(0..4) == 0 || b.is_empty() {
                    b = string(&mut rng, 120);
                } else {
                    for _ in 0..rng.gen_range(1..4) {
                        // mostly where the structure is
                        let k = if rng.gen() { rng.gen_range(0..b.len()) } else { rng.gen_range(0..b.len().min(48)) };
                        b[k] = if rng.gen() { rng.gen() } else { b[k] ^ (1 << rng.gen_range(0..8)) };
                    }
                }
                ev.push(run(&json!({"op": "noise", "b": b})));
            }
            6 => {
                let (a, p) = (text(&mut rng, 20), text(&mut rng, 20));
                let b = BrokerIdentifier { public_advertise_endpoint: a.clone(), private_advertise_endpoint: p.clone() }.to_string();
                ev.push(json!({"op": "name", "pub": a.as_bytes(), "prv": p.as_bytes(), "b": b.as_bytes()}));
                ev.push(run(&json!({"op": "parse", "b": b.as_bytes()})));
            }
            _ => {
                let parts: Vec<String> = (0..rng.gen_range(1..5)).map(|_| text(&mut rng, 6)).collect();
                ev.push(run(&json!({"op": "parse", "b": parts.join("/").as_bytes()})));
            }
        }
    }
    json!({"ev": ev})
}

fn describe_kind(m: &Message) -> Value {
    match m {
        Message::Direct(_) => json!("direct"),
        Message::Broadcast(_) => json!("bcast"),
        Message::TopicSync(_) => json!("tsync"),
        _ => json!("usync"),
    }
}
