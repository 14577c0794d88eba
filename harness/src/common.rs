//! What all harness modes share: an idealised signature scheme, the topics, an in-memory discovery service, a
//! scriptable message hook, names for brokers and keys, and the translation between wire messages and the
//! abstract messages of the specification.

use std::{
    hash::{Hash as _, Hasher as _},
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    sync::{Arc, OnceLock},
    time::Duration,
};

use async_trait::async_trait;
use cdn_broker::verif::{DirectMap, SubscriptionStatus, TopicSyncMap};
use cdn_proto::{
    connection::{Bytes, UserPublicKey},
    crypto::signature::{KeyPair, Serializable, SignatureScheme},
    def::{ConnectionDef, HookResult, MessageHookDef, RunDef, Topic},
    discovery::{BrokerIdentifier, DiscoveryClient},
    error::{Error, Result},
    message::{
        AuthenticateResponse, AuthenticateWithKey, AuthenticateWithPermit, Broadcast, Direct, Message,
    },
};
use num_enum::{IntoPrimitive, TryFromPrimitive};
use parking_lot::Mutex;
use serde_json::{json, Value};
use tokio::time::Instant;

use crate::net::{net, Net};

// ---------------------------------------------------------------- topics

/// The valid topics are 0..=3; everything else is unknown.
#[repr(u8)]
#[derive(IntoPrimitive, TryFromPrimitive, Clone, PartialEq, Eq)]
pub enum HTopic {
    T0 = 0,
    T1 = 1,
    T2 = 2,
    T3 = 3,
}
impl Topic for HTopic {}

/// Unknown topics with which a (topics-only) message tells the hook what to answer.
pub const HOOK_SKIP: u8 = 201;
pub const HOOK_ERR: u8 = 202;
/// ... and that the hook is to change the message
pub const HOOK_TURN: u8 = 203;

// ---------------------------------------------------------------- signatures

/// An idealised scheme: a signature is the triple (key, namespace, message) itself, which only `sign` makes.
pub struct Toy;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct ToyKey(pub u8);

impl Serializable for ToyKey {
    fn serialize(&self) -> anyhow::Result<Vec<u8>> {
        Ok(vec![b'K', b'E', b'Y', self.0, 0, 0, 0, 0])
    }
    fn deserialize(s: &[u8]) -> anyhow::Result<Self> {
        // what follows the key is ignored (as `deserialize_uncompressed` of the production scheme does)
        if s.len() >= 8 && &s[..3] == b"KEY" && s[4..8] == [0; 4] {
            Ok(ToyKey(s[3]))
        } else {
            Err(anyhow::anyhow!("malformed key"))
        }
    }
}

impl SignatureScheme for Toy {
    type PrivateKey = u8;
    type PublicKey = ToyKey;
    fn sign(private_key: &u8, namespace: &'static str, message: &[u8]) -> anyhow::Result<Vec<u8>> {
        let mut v = vec![b'S', *private_key];
        v.extend_from_slice(namespace.as_bytes());
        v.push(0);
        v.extend_from_slice(message);
        Ok(v)
    }
    fn verify(public_key: &ToyKey, namespace: &'static str, message: &[u8], signature: &[u8]) -> bool {
        Self::sign(&public_key.0, namespace, message).is_ok_and(|s| s == signature)
    }
}

pub const USER_NS: &str = "espresso-cdn-user-marshal-auth";
pub const BROKER_NS: &str = "espresso-cdn-broker-broker-auth";
/// The key pair the brokers share
pub const BROKER_KEY: u8 = 100;

pub fn key_bytes(k: u64) -> Vec<u8> {
    ToyKey(k as u8).serialize().unwrap()
}
pub fn user_key(k: u64) -> UserPublicKey {
    Arc::new(key_bytes(k))
}
pub fn key_of(bytes: &[u8]) -> u64 {
    if bytes.len() != 8 {
        return 999;
    }
    ToyKey::deserialize(bytes).map_or(999, |k| u64::from(k.0))
}
pub fn keypair(k: u8) -> KeyPair<Toy> {
    KeyPair { public_key: ToyKey(k), private_key: k }
}

// ---------------------------------------------------------------- broker names

/// Broker `n` of world `w`; identifiers compare as their numbers do.
pub fn bid(w: &str, n: u64) -> BrokerIdentifier {
    BrokerIdentifier {
        public_advertise_endpoint: format!("b{n}-{w}-pub"),
        private_advertise_endpoint: format!("b{n}-{w}-prv"),
    }
}
pub fn bnum(id: &BrokerIdentifier) -> u64 {
    let f = |s: &str, suf: &str| -> Option<u64> {
        if !s.ends_with(suf) {
            return None;
        }
        s.strip_prefix('b')?.split('-').next()?.parse().ok()
    };
    match (f(&id.public_advertise_endpoint, "-pub"), f(&id.private_advertise_endpoint, "-prv")) {
        (Some(a), Some(b)) if a == b => a,
        _ => 999,
    }
}
pub fn bnum_str(s: &str) -> u64 {
    BrokerIdentifier::try_from(s.to_string()).map_or(999, |b| bnum(&b))
}

// ---------------------------------------------------------------- hook

#[derive(Default)]
pub struct HookLog {
    pub names: HashMap<u64, u64>,
    pub log: Vec<(String, u64, u64, String)>,
}

/// Does what the message tells it to and logs (side, who, how many this instance has seen, message).
pub struct Hook {
    pub side: &'static str,
    pub log: Arc<Mutex<HookLog>>,
    ident: u64,
    seen: u64,
}
impl Hook {
    pub fn new(side: &'static str, log: Arc<Mutex<HookLog>>) -> Self {
        Hook { side, log, ident: 0, seen: 0 }
    }
}
impl Clone for Hook {
    fn clone(&self) -> Self {
        Hook { side: self.side, log: self.log.clone(), ident: self.ident, seen: self.seen }
    }
}

pub fn hook_kind(m: &Message) -> (String, u8) {
    match m {
        Message::Direct(d) => {
            let (id, h) = unpayload(&d.message);
            (format!("direct:{id}"), h)
        }
        Message::Broadcast(b) => {
            let (id, h) = unpayload(&b.message);
            (format!("bcast:{id}"), h)
        }
        Message::Subscribe(t) => ("sub".into(), topic_hook(t)),
        Message::Unsubscribe(t) => ("unsub".into(), topic_hook(t)),
        Message::UserSync(_) => ("usync".into(), 0),
        Message::TopicSync(_) => ("tsync".into(), 0),
        _ => ("auth".into(), 0),
    }
}
pub fn topic_hook(t: &[u8]) -> u8 {
    if t.contains(&HOOK_ERR) {
        2
    } else if t.contains(&HOOK_SKIP) {
        1
    } else if t.contains(&HOOK_TURN) {
        3
    } else {
        0
    }
}
/// What the hook makes of a message that tells it to: another recipient, other topics.
fn turn(m: &mut Message) {
    match m {
        Message::Direct(d) => {
            let k = key_of(&d.recipient);
            if (1..=4).contains(&k) {
                d.recipient = key_bytes(k % 4 + 1);
            }
        }
        Message::Broadcast(Broadcast { topics: t, .. }) | Message::Subscribe(t) | Message::Unsubscribe(t) => {
            t.iter_mut().filter(|t| **t < 4).for_each(|t| *t = 3 - *t);
        }
        _ => {}
    }
}

impl MessageHookDef for Hook {
    fn on_message_received(&mut self, message: &mut Message) -> anyhow::Result<HookResult> {
        self.seen += 1;
        let (kind, h) = hook_kind(message);
        let mut log = self.log.lock();
        let who = log.names.get(&self.ident).copied().unwrap_or(999);
        log.log.push((self.side.to_string(), who, self.seen, kind));
        match h {
            1 => Ok(HookResult::SkipMessage),
            2 => Err(anyhow::anyhow!("told to fail")),
            3 => {
                turn(message);
                Ok(HookResult::ProcessMessage)
            }
            _ => Ok(HookResult::ProcessMessage),
        }
    }
    fn set_identifier(&mut self, identifier: u64) {
        self.ident = identifier;
    }
}

// ---------------------------------------------------------------- payloads

/// message id, hook directive, size
pub fn payload(id: u64, hook: u8, size: usize) -> Vec<u8> {
    let mut v = vec![0u8; 9.max(size)];
    v[..8].copy_from_slice(&id.to_le_bytes());
    v[8] = hook;
    for (i, b) in v.iter_mut().enumerate().skip(9) {
        *b = ((i as u64).wrapping_mul(31).wrapping_add(id.wrapping_mul(7))) as u8;
    }
    v
}
pub fn unpayload(p: &[u8]) -> (u64, u8) {
    if p.len() < 9 {
        return (0, 0);
    }
    (u64::from_le_bytes(p[..8].try_into().unwrap()), p[8])
}

// ---------------------------------------------------------------- discovery

#[derive(Default)]
pub struct DiscState {
    pub permits: BTreeMap<u64, (u64, u64)>, // permit -> (broker, key)
    pub next_permit: u64,
    pub whitelist: Option<BTreeSet<u64>>,
    pub brokers: BTreeSet<u64>,
    pub load: BTreeMap<u64, u64>,
    pub hb: Vec<(u64, u64)>, // (connections, seconds registered for) since last read
    pub issued: Vec<(u64, u64, u64, u64)>, // permit, broker, key, seconds it is good for
    pub wl_fail: bool,
    pub wl_fail_keys: BTreeSet<u64>,
    pub hb_fail: bool,
    pub list_fail: bool,
    pub least_fail: bool,
    pub issue_fail: bool,
    pub permit_fail: bool,
    pub hb_hang: bool,
    pub list_hang: bool,
    pub permit_hang: bool,
    /// how often brokers were asked for
    pub lists: u64,
    /// every call takes this long (virtual) time
    pub delay_ms: u64,
    /// A heartbeat adds the broker for a minute; a permit lasts half a minute; brokers dial on a `Net`
    pub registers: bool,
    pub seen: BTreeMap<u64, Instant>,
    pub ever: HashMap<u64, (u64, u64)>,
    since: BTreeMap<u64, Instant>,
    life: BTreeMap<u64, Duration>,   // of a registration
    permit_life: BTreeMap<u64, Duration>,
}

impl DiscState {
    fn forget(&mut self) {
        if self.registers {
            let (seen, since) = (&self.seen, &self.since);
            let (life, permit_life) = (&self.life, &self.permit_life);
            self.brokers.retain(|b| seen[b].elapsed() < life[b]);
            self.permits.retain(|p, _| since.get(p).is_none_or(|t| t.elapsed() < permit_life[p]));
        }
    }
}

static DISC: OnceLock<Mutex<HashMap<String, Arc<Mutex<DiscState>>>>> = OnceLock::new();

pub fn disc(world: &str) -> Arc<Mutex<DiscState>> {
    DISC.get_or_init(Mutex::default).lock().entry(world.to_string()).or_default().clone()
}
pub fn drop_disc(world: &str) {
    DISC.get_or_init(Mutex::default).lock().remove(world);
}

#[derive(Clone)]
pub struct Disc {
    world: String,
    me: u64,
    st: Arc<Mutex<DiscState>>,
}
impl Disc {
    async fn delay(&self) {
        let d = self.st.lock().delay_ms;
        if d > 0 {
            tokio::time::sleep(Duration::from_millis(d)).await;
        }
    }
}
fn fail<T>() -> Result<T> {
    Err(Error::Connection("discovery is down".into()))
}
async fn hang_if(h: bool) {
    if h {
        std::future::pending::<()>().await;
    }
}

#[async_trait]
impl DiscoveryClient for Disc {
    async fn new(path: String, identity: Option<BrokerIdentifier>) -> Result<Self> {
        let st = disc(&path);
        Ok(Disc { world: path, me: identity.map_or(0, |i| bnum(&i)), st })
    }
    async fn perform_heartbeat(&mut self, n: u64, expiry: Duration) -> Result<()> {
        self.delay().await;
        let hang = self.st.lock().hb_hang;
        hang_if(hang).await;
        let mut s = self.st.lock();
        if s.hb_fail {
            return fail();
        }
        let me = self.me;
        s.hb.push((n, expiry.as_secs()));
        s.load.insert(me, n);
        if s.registers {
            s.brokers.insert(me);
            s.seen.insert(me, Instant::now());
            s.life.insert(me, expiry);
        }
        Ok(())
    }
    async fn get_with_least_connections(&mut self) -> Result<BrokerIdentifier> {
        self.delay().await;
        let mut s = self.st.lock();
        s.forget();
        if s.least_fail || s.brokers.is_empty() {
            return fail();
        }
        let load = |b: &u64| {
            s.load.get(b).copied().unwrap_or(0) + s.permits.values().filter(|p| p.0 == *b).count() as u64
        };
        let b = s.brokers.iter().min_by_key(|b| load(b)).unwrap();
        Ok(bid(&self.world, *b))
    }
    async fn get_other_brokers(&mut self) -> Result<HashSet<BrokerIdentifier>> {
        self.delay().await;
        let hang = self.st.lock().list_hang;
        hang_if(hang).await;
        let (n, failing) = {
            let mut s = self.st.lock();
            s.lists += 1;
            (s.lists, s.list_fail)
        };
        if failing {
            // asked again and again without a pause, the execution would never come to rest
            if n % 1000 == 0 {
                tokio::time::sleep(Duration::from_secs(1)).await;
            }
            return fail();
        }
        let mut s = self.st.lock();
        s.forget();
        if s.registers {
            net(&self.world).lock().dialler = self.me;
        }
        Ok(s.brokers.iter().filter(|b| **b != self.me).map(|b| bid(&self.world, *b)).collect())
    }
    async fn issue_permit(
        &mut self,
        for_broker: &BrokerIdentifier,
        expiry: Duration,
        public_key: Vec<u8>,
    ) -> Result<u64> {
        self.delay().await;
        let mut s = self.st.lock();
        if s.issue_fail {
            return fail();
        }
        s.next_permit += 1;
        let p = 100 + s.next_permit;
        let e = (bnum(for_broker), key_of(&public_key));
        s.permits.insert(p, e);
        s.ever.insert(p, e);
        s.since.insert(p, Instant::now());
        s.permit_life.insert(p, expiry);
        s.issued.push((p, e.0, e.1, expiry.as_secs()));
        Ok(p)
    }
    async fn validate_permit(&mut self, broker: &BrokerIdentifier, permit: u64) -> Result<Option<Vec<u8>>> {
        self.delay().await;
        let hang = self.st.lock().permit_hang;
        hang_if(hang).await;
        let mut s = self.st.lock();
        if s.permit_fail {
            return fail();
        }
        s.forget();
        let b = bnum(broker);
        match s.permits.get(&permit) {
            Some(&(pb, k)) if pb == b => {
                s.permits.remove(&permit);
                Ok(Some(key_bytes(k)))
            }
            _ => Ok(None),
        }
    }
    async fn set_whitelist(&mut self, users: Vec<UserPublicKey>) -> Result<()> {
        self.st.lock().whitelist = Some(users.iter().map(|u| key_of(u)).collect());
        Ok(())
    }
    async fn check_whitelist(&mut self, user: &UserPublicKey) -> Result<bool> {
        self.delay().await;
        let s = self.st.lock();
        if s.wl_fail || s.wl_fail_keys.contains(&key_of(user)) {
            return fail();
        }
        Ok(s.whitelist.as_ref().is_none_or(|w| w.contains(&key_of(user))))
    }
}

// ---------------------------------------------------------------- run definition

#[derive(Clone)]
pub struct Conn;
impl ConnectionDef for Conn {
    type Scheme = Toy;
    type Protocol = Net;
    type MessageHook = Hook;
}
pub struct Run;
impl RunDef for Run {
    type Broker = Conn;
    type User = Conn;
    type DiscoveryClientType = Disc;
    type Topic = HTopic;
}

// ---------------------------------------------------------------- versioned maps on the wire
//
// The harness uses the implementation's own map type to read and write sync messages. Versions are not public:
// a map with a wanted version is made by that many edit/diff rounds, and a received version is recognised by
// comparing with such maps.

pub const MAXVER: usize = 48;

pub struct Maps {
    world: String,
    /// value (0 = deleted) -> version - 1 -> a map holding exactly that entry under key 0
    dref: HashMap<u64, Vec<DirectMap>>,
    tref: HashMap<u64, Vec<TopicSyncMap>>,
}

impl Maps {
    pub fn new(world: &str, brokers: &[u64]) -> Self {
        let mut dref = HashMap::new();
        for b in brokers.iter().copied().chain([0]) {
            let filler = bid(world, if b == 0 { brokers[0] } else { b });
            let mut v = Vec::new();
            let mut m = DirectMap::new(filler.clone());
            for _ in 1..=MAXVER {
                let mut r = m.clone();
                if b == 0 {
                    r.remove(user_key(0));
                } else {
                    r.insert(user_key(0), filler.clone());
                }
                v.push(r.diff());
                m.insert(user_key(0), filler.clone());
                m.diff();
            }
            dref.insert(b, v);
        }
        let mut tref = HashMap::new();
        for s in [0u64, 1] {
            let mut v = Vec::new();
            let mut m = TopicSyncMap::new(0);
            for _ in 1..=MAXVER {
                m.insert(0, status(s));
                m.diff();
                v.push(m.clone());
            }
            tref.insert(s, v);
        }
        Maps { world: world.to_string(), dref, tref }
    }

    /// [[key, version, broker or 0]] sorted
    pub fn direct_entries(&self, m: &DirectMap) -> Value {
        let mut out = Vec::new();
        for (k, vv) in &m.underlying_map {
            let mut e = [key_of(k), 999, 999];
            for (b, refs) in &self.dref {
                for (i, r) in refs.iter().enumerate() {
                    if r.underlying_map.get(&user_key(0)) == Some(vv) {
                        e = [key_of(k), i as u64 + 1, *b];
                    }
                }
            }
            out.push(e);
        }
        out.sort_unstable();
        json!(out)
    }

    /// Which broker's conflict identity a (non-empty) map carries: probed by merging it into maps of known identity.
    pub fn identity(&self, m: &DirectMap, brokers: &[u64]) -> u64 {
        let Some((k, vv)) = m.underlying_map.iter().next() else { return 0 };
        let mut from = 1;
        for n in brokers {
            let mut probe = DirectMap::new(bid(&self.world, *n));
            probe.underlying_map.insert(k.clone(), vv.clone());
            let mut one = m.clone();
            one.underlying_map.retain(|k2, _| k2 == k);
            if !probe.merge(one).is_empty() {
                from = n + 1;
            }
        }
        from
    }

    pub fn topic_entries(&self, m: &TopicSyncMap) -> Value {
        let mut out = Vec::new();
        for (t, vv) in &m.underlying_map {
            let mut e = [u64::from(*t), 999, 999];
            for (s, refs) in &self.tref {
                for (i, r) in refs.iter().enumerate() {
                    if r.underlying_map.get(&0) == Some(vv) {
                        e = [u64::from(*t), i as u64 + 1, *s];
                    }
                }
            }
            out.push(e);
        }
        out.sort_unstable();
        json!(out)
    }

    pub fn make_direct(&self, from: u64, ents: &Value) -> DirectMap {
        let mut m = DirectMap::new(bid(&self.world, from));
        let ents: Vec<(u64, u64, u64)> = triples(ents);
        for (k, v, _) in &ents {
            for _ in 1..*v {
                m.insert(user_key(*k), bid(&self.world, from));
                m.diff();
            }
        }
        for (k, _, b) in &ents {
            if *b == 0 {
                m.remove(user_key(*k));
            } else {
                m.insert(user_key(*k), bid(&self.world, *b));
            }
        }
        m.diff()
    }

    pub fn make_topic(&self, ents: &Value) -> TopicSyncMap {
        let mut m = TopicSyncMap::new(0);
        let ents: Vec<(u64, u64, u64)> = triples(ents);
        for (t, v, _) in &ents {
            for _ in 1..*v {
                m.insert(*t as u8, SubscriptionStatus::Subscribed);
                m.diff();
            }
        }
        for (t, _, s) in &ents {
            m.insert(*t as u8, status(*s));
        }
        m.diff()
    }
}

fn status(s: u64) -> SubscriptionStatus {
    if s == 1 {
        SubscriptionStatus::Subscribed
    } else {
        SubscriptionStatus::Unsubscribed
    }
}

pub fn triples(v: &Value) -> Vec<(u64, u64, u64)> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|e| (e[0].as_u64().unwrap(), e[1].as_u64().unwrap(), e[2].as_u64().unwrap()))
        .collect()
}
pub fn u64s(v: &Value) -> Vec<u64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default()
}

// ---------------------------------------------------------------- abstract <-> wire messages

pub fn now_secs() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs()
}

/// The broker with this public endpoint
pub fn pub_num(s: &str) -> u64 {
    if !s.ends_with("-pub") {
        return 999;
    }
    s.strip_prefix('b').and_then(|s| s.split('-').next()).and_then(|s| s.parse().ok()).unwrap_or(999)
}

/// The wire form of the specification's message.
pub fn encode(maps: &Maps, world: &str, m: &Value) -> Vec<u8> {
    let t = m["t"].as_str().unwrap();
    let topics = || u64s(&m["topics"]).iter().map(|t| *t as u8).collect::<Vec<u8>>();
    let id = m["id"].as_u64().unwrap_or(0);
    let hook = m["h"].as_u64().unwrap_or(0) as u8;
    let size = m["size"].as_u64().unwrap_or(0) as usize;
    let payload = |id, hook, size| if m["empty"] == 1 { vec![] } else { payload(id, hook, size) };
    let msg = match t {
        "direct" => Message::Direct(Direct {
            recipient: key_bytes(m["to"].as_u64().unwrap()),
            message: payload(id, hook, size),
        }),
        "bcast" => Message::Broadcast(Broadcast { topics: topics(), message: payload(id, hook, size) }),
        "sub" => Message::Subscribe(topics()),
        "unsub" => Message::Unsubscribe(topics()),
        "permit" => Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: m["p"].as_u64().unwrap() }),
        "authresp" => Message::AuthenticateResponse(AuthenticateResponse {
            permit: m["p"].as_u64().unwrap(),
            context: match m["ctx"].as_u64().unwrap_or(0) {
                0 => "nonsense".to_string(),
                b => bid(world, b).to_string(),
            },
        }),
        "authkey" => {
            // k: key shown; sk: key that signed; ns: 0 user, 1 broker; age in seconds; bad: malformed key
            let age = m["age"].as_i64().unwrap_or(0);
            let ts = now_secs().wrapping_sub(age as u64);
            let sts = if m["tamper"].as_bool().unwrap_or(false) { ts.wrapping_sub(1) } else { ts };
            let ns = if m["ns"].as_u64().unwrap_or(1) == 1 { BROKER_NS } else { USER_NS };
            let mut signature = Toy::sign(&(m["sk"].as_u64().unwrap() as u8), ns, &sts.to_le_bytes()).unwrap();
            if m["nosig"].as_bool().unwrap_or(false) {
                signature.clear();
            }
            let mut public_key = key_bytes(m["k"].as_u64().unwrap());
            if m["badkey"].as_bool().unwrap_or(false) {
                public_key.pop();
            }
            if m["pad"].as_bool().unwrap_or(false) {
                public_key.extend_from_slice(b"pad");
            }
            Message::AuthenticateWithKey(AuthenticateWithKey { timestamp: ts, public_key, signature })
        }
        "usync" => Message::UserSync(
            rkyv::to_bytes::<_, 2048>(&maps.make_direct(m["from"].as_u64().unwrap(), &m["ents"])).unwrap().to_vec(),
        ),
        "tsync" => Message::TopicSync(rkyv::to_bytes::<_, 2048>(&maps.make_topic(&m["ents"])).unwrap().to_vec()),
        "badusync" => Message::UserSync(vec![1, 2, 3, 4, 5]),
        "badtsync" => Message::TopicSync(vec![255; 7]),
        "garbage" => {
            return match id % 4 {
                0 => vec![],
                1 => vec![0xff; 16],
                2 => vec![0; 8],
                _ => vec![9, 1, 7, 3, 200, 42, 6],
            }
        }
        _ => panic!("unknown message kind {t}"),
    };
    let mut raw = msg.serialize().unwrap();
    // other encodings of the same message, which a receiver has to get as they are
    match m["enc"].as_u64().unwrap_or(0) {
        1 => {
            // a word nobody refers to at the end of the last segment (whose length is the last of the table)
            let at = 4 + 4 * u32::from_le_bytes(raw[..4].try_into().unwrap()) as usize;
            let words = u32::from_le_bytes(raw[at..at + 4].try_into().unwrap()) + 1;
            raw[at..at + 4].copy_from_slice(&words.to_le_bytes());
            raw.extend([0xEE; 8]);
        }
        2 => raw.extend([7; 5]), // bytes after the end
        _ => {}
    }
    raw
}

/// Stands for an encoded message as its id does.
pub fn whole(raw: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    raw.hash(&mut h);
    h.finish() | 1 << 63
}

/// What the specification says about a received message; ids and hooks of payloads are checked against what was
/// sent (by `sent`: id -> raw bytes).
pub fn decode(maps: &Maps, raw: &Bytes, sent: &HashMap<u64, Vec<u8>>) -> Value {
    let Ok(m) = Message::deserialize(raw) else {
        return json!({"t": "undecodable"});
    };
    // an empty one (0) can only be told by all of it
    let intact = |id: u64| sent.get(&if id == 0 { whole(raw) } else { id }).is_some_and(|s| s.as_slice() == raw.as_slice());
    match m {
        Message::Direct(d) => {
            let id = unpayload(&d.message).0;
            if intact(id) { json!({"t": "msg", "k": "d", "id": id}) } else { json!({"t": "corrupt", "id": id % 1_000_000_000}) }
        }
        Message::Broadcast(b) => {
            let id = unpayload(&b.message).0;
            if intact(id) { json!({"t": "msg", "k": "b", "id": id}) } else { json!({"t": "corrupt", "id": id % 1_000_000_000}) }
        }
        Message::UserSync(b) => match rkyv::from_bytes::<DirectMap>(&b) {
            Ok(m) => json!({"t": "usync", "from": maps.identity(&m, &[1, 2, 3, 4, 5]), "ents": maps.direct_entries(&m)}),
            Err(_) => json!({"t": "undecodable"}),
        },
        Message::TopicSync(b) => match rkyv::from_bytes::<TopicSyncMap>(&b) {
            Ok(m) => json!({"t": "tsync", "ents": maps.topic_entries(&m)}),
            Err(_) => json!({"t": "undecodable"}),
        },
        Message::AuthenticateResponse(r) => {
            json!({"t": "authresp", "p": r.permit.min(1_000_000_000), "ctx": match r.permit {
                1 if !r.context.is_empty() => bnum_str(&r.context),
                0 | 1 => 0,
                _ => pub_num(&r.context),
            }})
        }
        Message::AuthenticateWithKey(a) => {
            let k = key_of(&a.public_key);
            let ok = Toy::verify(&ToyKey(k as u8), BROKER_NS, &a.timestamp.to_le_bytes(), &a.signature)
                && now_secs().abs_diff(a.timestamp) <= 3;
            json!({"t": "authkey", "k": k, "ok": ok})
        }
        Message::Subscribe(t) => json!({"t": "sub", "topics": t}),
        Message::Unsubscribe(t) => json!({"t": "unsub", "topics": t}),
        Message::AuthenticateWithPermit(p) => json!({"t": "permit", "p": p.permit}),
    }
}
