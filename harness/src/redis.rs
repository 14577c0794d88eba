//! A stand-in for the Redis-protocol server (KeyDB) the CDN talks to: strings and sets that expire by the
//! harness's wall clock. One server per execution, on a loopback port.

use std::{
    collections::{BTreeMap, HashMap},
    sync::Arc,
};

use parking_lot::Mutex;
use tokio::{
    io::{AsyncReadExt, AsyncWriteExt, BufReader},
    net::{TcpListener, TcpStream},
    task::AbortHandle,
};

use crate::clock;

type B = Vec<u8>;

enum Val {
    Str(B),
    /// member -> when it expires
    Set(BTreeMap<B, Option<i64>>),
}

#[derive(Default)]
struct Store {
    keys: HashMap<B, (Val, Option<i64>)>,
}

enum R {
    Ok,
    Simple(&'static str),
    Int(i64),
    Bulk(B),
    Nil,
    NilArr,
    Arr(Vec<R>),
    Err(String),
}

fn put(r: &R, o: &mut B) {
    match r {
        R::Ok => o.extend(b"+OK\r\n"),
        R::Simple(s) => o.extend(format!("+{s}\r\n").bytes()),
        R::Int(i) => o.extend(format!(":{i}\r\n").bytes()),
        R::Bulk(b) => {
            o.extend(format!("${}\r\n", b.len()).bytes());
            o.extend(b);
            o.extend(b"\r\n");
        }
        R::Nil => o.extend(b"$-1\r\n"),
        R::NilArr => o.extend(b"*-1\r\n"),
        R::Arr(v) => {
            o.extend(format!("*{}\r\n", v.len()).bytes());
            for r in v {
                put(r, o);
            }
        }
        R::Err(e) => o.extend(format!("-{e}\r\n").bytes()),
    }
}

fn wrong() -> R {
    R::Err("WRONGTYPE Operation against a key holding the wrong kind of value".into())
}
fn syntax() -> R {
    R::Err("ERR syntax error".into())
}
fn int(b: &[u8]) -> Option<i64> {
    std::str::from_utf8(b).ok()?.parse().ok()
}
/// The patterns of KEYS and SCAN: only '*' and '?' mean anything.
fn like(p: &[u8], s: &[u8]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(b'*') => (0..=s.len()).any(|i| like(&p[1..], &s[i..])),
        Some(b'?') => !s.is_empty() && like(&p[1..], &s[1..]),
        Some(c) => s.first() == Some(c) && like(&p[1..], &s[1..]),
    }
}

impl Store {
    fn sweep(&mut self) {
        let now = clock::now();
        let over = |e: &Option<i64>| e.is_some_and(|e| e <= now);
        self.keys.retain(|_, (v, e)| {
            if over(e) {
                return false;
            }
            match v {
                Val::Str(_) => true,
                Val::Set(m) => {
                    m.retain(|_, e| !over(e));
                    !m.is_empty()
                }
            }
        });
    }
    fn set(&mut self, k: &B) -> Result<Option<&mut BTreeMap<B, Option<i64>>>, R> {
        match self.keys.get_mut(k) {
            None => Ok(None),
            Some((Val::Set(m), _)) => Ok(Some(m)),
            Some(_) => Err(wrong()),
        }
    }
    fn str(&self, k: &B) -> Result<Option<B>, R> {
        match self.keys.get(k) {
            None => Ok(None),
            Some((Val::Str(s), _)) => Ok(Some(s.clone())),
            Some(_) => Err(wrong()),
        }
    }
    fn run(&mut self, a: &[B]) -> R {
        self.try_run(a).unwrap_or_else(|e| e)
    }
    fn try_run(&mut self, a: &[B]) -> Result<R, R> {
        self.sweep();
        let now = clock::now();
        let name = String::from_utf8_lossy(&a[0]).to_uppercase();
        let need = |n: usize| if a.len() < n { Err(R::Err(format!("ERR wrong number of arguments for '{name}'"))) } else { Ok(()) };
        let bulk = |o: Option<B>| o.map_or(R::Nil, R::Bulk);
        Ok(match name.as_str() {
            "PING" => R::Simple("PONG"),
            "CLIENT" | "SELECT" | "AUTH" => R::Ok,
            "HELLO" => R::Err("ERR unknown command `HELLO`".into()),
            "INFO" => R::Bulk(b"redis_version:6.3.4\r\n".to_vec()),
            "SET" => {
                need(3)?;
                let (mut exp, mut nx, mut xx, mut get, mut keep) = (None, false, false, false, false);
                let mut i = 3;
                while i < a.len() {
                    match String::from_utf8_lossy(&a[i]).to_uppercase().as_str() {
                        u @ ("EX" | "PX" | "EXAT") => {
                            i += 1;
                            let n = a.get(i).and_then(|n| int(n)).ok_or_else(syntax)?;
                            if n <= 0 {
                                return Err(R::Err("ERR invalid expire time in 'set' command".into()));
                            }
                            exp = Some(match u {
                                "EX" => now + n,
                                "PX" => now + n / 1000,
                                _ => n - clock::START,
                            });
                        }
                        "NX" => nx = true,
                        "XX" => xx = true,
                        "GET" => get = true,
                        "KEEPTTL" => keep = true,
                        _ => return Err(syntax()),
                    }
                    i += 1;
                }
                let old = if get { self.str(&a[1])? } else { None };
                let there = self.keys.contains_key(&a[1]);
                if (nx && there) || (xx && !there) {
                    return Ok(if get { bulk(old) } else { R::Nil });
                }
                if keep {
                    exp = self.keys.get(&a[1]).and_then(|x| x.1);
                }
                self.keys.insert(a[1].clone(), (Val::Str(a[2].clone()), exp));
                if get {
                    bulk(old)
                } else {
                    R::Ok
                }
            }
            "SETEX" => {
                need(4)?;
                let n = int(&a[2]).ok_or_else(syntax)?;
                self.keys.insert(a[1].clone(), (Val::Str(a[3].clone()), Some(now + n)));
                R::Ok
            }
            "SETNX" => {
                need(3)?;
                let there = self.keys.contains_key(&a[1]);
                self.keys.entry(a[1].clone()).or_insert((Val::Str(a[2].clone()), None));
                R::Int(i64::from(!there))
            }
            "GET" => {
                need(2)?;
                bulk(self.str(&a[1])?)
            }
            "GETSET" => {
                need(3)?;
                let o = self.str(&a[1])?;
                self.keys.insert(a[1].clone(), (Val::Str(a[2].clone()), None));
                bulk(o)
            }
            "GETDEL" => {
                need(2)?;
                let o = self.str(&a[1])?;
                self.keys.remove(&a[1]);
                bulk(o)
            }
            "MGET" => R::Arr(a[1..].iter().map(|k| bulk(self.str(k).ok().flatten())).collect()),
            "DEL" | "UNLINK" => R::Int(a[1..].iter().filter(|k| self.keys.remove(*k).is_some()).count() as i64),
            "EXISTS" => R::Int(a[1..].iter().filter(|k| self.keys.contains_key(*k)).count() as i64),
            "RENAME" => {
                need(3)?;
                match self.keys.remove(&a[1]) {
                    Some(v) => {
                        self.keys.insert(a[2].clone(), v);
                        R::Ok
                    }
                    None => R::Err("ERR no such key".into()),
                }
            }
            "TYPE" => R::Simple(match self.keys.get(&a[1]) {
                None => "none",
                Some((Val::Str(_), _)) => "string",
                Some(_) => "set",
            }),
            "SADD" => {
                need(3)?;
                if self.set(&a[1])?.is_none() {
                    self.keys.insert(a[1].clone(), (Val::Set(BTreeMap::new()), None));
                }
                let s = self.set(&a[1])?.unwrap();
                // (what is there already keeps its expiry)
                let mut n = 0;
                for m in &a[2..] {
                    if !s.contains_key(m) {
                        s.insert(m.clone(), None);
                        n += 1;
                    }
                }
                R::Int(n)
            }
            "SREM" => {
                need(3)?;
                let n = self.set(&a[1])?.map_or(0, |s| a[2..].iter().filter(|m| s.remove(*m).is_some()).count());
                self.sweep();
                R::Int(n as i64)
            }
            "SPOP" => {
                need(2)?;
                let m = self.set(&a[1])?.and_then(|s| s.pop_first()).map(|x| x.0);
                self.sweep();
                bulk(m)
            }
            "SCARD" => {
                need(2)?;
                R::Int(self.set(&a[1])?.map_or(0, |s| s.len()) as i64)
            }
            "SMEMBERS" => {
                need(2)?;
                R::Arr(self.set(&a[1])?.map_or(vec![], |s| s.keys().map(|m| R::Bulk(m.clone())).collect()))
            }
            "SISMEMBER" => {
                need(3)?;
                R::Int(i64::from(self.set(&a[1])?.is_some_and(|s| s.contains_key(&a[2]))))
            }
            "SMISMEMBER" => {
                need(3)?;
                let s = self.set(&a[1])?;
                R::Arr(a[2..].iter().map(|m| R::Int(i64::from(s.as_ref().is_some_and(|s| s.contains_key(m))))).collect())
            }
            "EXPIRE" | "PEXPIRE" | "EXPIREAT" => {
                need(3)?;
                let n = int(&a[2]).ok_or_else(syntax)?;
                let at = match name.as_str() {
                    "EXPIRE" => now + n,
                    "PEXPIRE" => now + n / 1000,
                    _ => n - clock::START,
                };
                match self.keys.get_mut(&a[1]) {
                    Some(v) => {
                        v.1 = Some(at);
                        R::Int(1)
                    }
                    None => R::Int(0),
                }
            }
            "PERSIST" => R::Int(self.keys.get_mut(&a[1]).map_or(0, |v| i64::from(v.1.take().is_some()))),
            // KeyDB's: EXPIREMEMBER key member delay [unit]
            "EXPIREMEMBER" | "PEXPIREMEMBER" | "EXPIREMEMBERAT" => {
                need(4)?;
                let n = int(&a[3]).ok_or_else(syntax)?;
                let ms = name.starts_with('P') || a.get(4).is_some_and(|u| u.eq_ignore_ascii_case(b"ms"));
                let at = if name.ends_with("AT") { n - clock::START } else { now + if ms { n / 1000 } else { n } };
                match self.set(&a[1])?.and_then(|s| s.get_mut(&a[2])) {
                    Some(e) => {
                        *e = Some(at);
                        R::Int(1)
                    }
                    None => R::Int(0),
                }
            }
            "TTL" | "PTTL" => {
                need(2)?;
                let member = a.get(2);
                let e = match (self.keys.get(&a[1]), member) {
                    (None, _) => return Ok(R::Int(-2)),
                    (Some((Val::Set(s), _)), Some(m)) => match s.get(m) {
                        None => return Ok(R::Int(-2)),
                        Some(e) => *e,
                    },
                    (Some((_, e)), _) => *e,
                };
                R::Int(e.map_or(-1, |e| (e - now) * if name == "PTTL" { 1000 } else { 1 }))
            }
            "INCR" | "DECR" | "INCRBY" | "DECRBY" => {
                need(2)?;
                let by = a.get(2).map_or(Some(1), |n| int(n)).ok_or_else(syntax)? * if name.starts_with('D') { -1 } else { 1 };
                let old = match self.str(&a[1])? {
                    None => 0,
                    Some(v) => int(&v).ok_or_else(|| R::Err("ERR value is not an integer or out of range".into()))?,
                };
                let e = self.keys.get(&a[1]).and_then(|x| x.1);
                self.keys.insert(a[1].clone(), (Val::Str((old + by).to_string().into_bytes()), e));
                R::Int(old + by)
            }
            "KEYS" => {
                need(2)?;
                R::Arr(self.keys.keys().filter(|k| like(&a[1], k)).map(|k| R::Bulk(k.clone())).collect())
            }
            "SCAN" => {
                let p = a.iter().position(|x| x.eq_ignore_ascii_case(b"match")).map_or(b"*".to_vec(), |i| a[i + 1].clone());
                R::Arr(vec![R::Bulk(b"0".to_vec()), R::Arr(self.keys.keys().filter(|k| like(&p, k)).map(|k| R::Bulk(k.clone())).collect())])
            }
            "DBSIZE" => R::Int(self.keys.len() as i64),
            _ => R::Err(format!("ERR unknown command `{name}`")),
        })
    }
}

async fn line(r: &mut BufReader<tokio::net::tcp::OwnedReadHalf>) -> Option<String> {
    let mut l = vec![];
    loop {
        let c = r.read_u8().await.ok()?;
        if c == b'\n' {
            l.pop();
            return String::from_utf8(l).ok();
        }
        l.push(c);
    }
}

async fn client(s: TcpStream, store: Arc<Mutex<Store>>) -> Option<()> {
    s.set_nodelay(true).ok()?;
    let (r, mut w) = s.into_split();
    let mut r = BufReader::new(r);
    let mut queue: Option<Vec<Vec<B>>> = None;
    loop {
        let head = line(&mut r).await?;
        let n: usize = head.strip_prefix('*')?.parse().ok()?;
        let mut a = vec![];
        for _ in 0..n {
            let l: usize = line(&mut r).await?.strip_prefix('$')?.parse().ok()?;
            let mut b = vec![0; l + 2];
            r.read_exact(&mut b).await.ok()?;
            b.truncate(l);
            a.push(b);
        }
        if a.is_empty() {
            continue;
        }
        let name = String::from_utf8_lossy(&a[0]).to_uppercase();
        let reply = match (name.as_str(), &mut queue) {
            ("MULTI", q @ None) => {
                *q = Some(vec![]);
                R::Ok
            }
            ("EXEC", Some(_)) => {
                let mut st = store.lock();
                R::Arr(queue.take().unwrap().iter().map(|c| st.run(c)).collect())
            }
            ("DISCARD", Some(_)) => {
                queue = None;
                R::Ok
            }
            ("WATCH" | "UNWATCH", _) => R::NilArr,
            (_, Some(q)) => {
                q.push(a);
                R::Simple("QUEUED")
            }
            _ => store.lock().run(&a),
        };
        let mut o = vec![];
        put(&reply, &mut o);
        w.write_all(&o).await.ok()?;
    }
}

pub struct Server {
    pub url: String,
    accept: AbortHandle,
}

impl Server {
    pub async fn start() -> Server {
        let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
        let url = format!("redis://127.0.0.1:{}", l.local_addr().unwrap().port());
        let store = Arc::new(Mutex::new(Store::default()));
        let accept = tokio::spawn(async move {
            while let Ok((s, _)) = l.accept().await {
                tokio::spawn(client(s, store.clone()));
            }
        })
        .abort_handle();
        Server { url, accept }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.accept.abort();
    }
}
