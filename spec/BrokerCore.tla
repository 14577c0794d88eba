----------------------------- MODULE BrokerCore -----------------------------
(***************************************************************************)
(* One Push-CDN broker, as a state record and pure operators on it, each   *)
(* of which is one critical section (or one uninterruptible handler step)  *)
(* of cdn-broker: connections/mod.rs (the maps), tasks/user and            *)
(* tasks/broker (the handlers, the sync, heartbeat and whitelist rounds),  *)
(* cdn-proto connection/auth/broker.rs (the handshakes).                   *)
(*                                                                         *)
(* The modules that use it: BrokerTrace (conformance of recorded           *)
(* executions), BrokerMC (one broker against an arbitrary environment),    *)
(* Cdn (several brokers and the network between them).                     *)
(*                                                                         *)
(* Brokers and users are small positive numbers; 0 is "nobody" (also: a    *)
(* deleted value in a versioned map). The broker's number is its conflict  *)
(* identity.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANTS Keys,        \* user public keys
          Brokers,     \* all broker numbers
          Topics,      \* valid topics
          BrokerKey,   \* the key pair all brokers share
          MaxAge,      \* seconds for which a signed timestamp is good
          HookSkip, HookErr  \* topics telling the hook what to answer

(* A connection, as the broker sees it.                                    *)
(*   kind: "u" a user's, "p" a peer broker's inbound, "d" dialled by us    *)
(*   st:   "a0" "a1" authenticating ("wait": for the discovery service),   *)
(*         "live", "closed"                                                *)
(*   at:   when it was opened (milliseconds)                               *)
(*   who:  user key or peer (0 until known)                                *)
(*   inq:  what the other side sent and the broker has not handled         *)
(*   out:  what the broker sent and the observer has not collected         *)
(*   n:    messages the connection's hook instance has seen                *)
(*   stalled: the other side does not read at the moment                   *)
(*   deaf: the other side takes in nothing any more, though it still sends *)
(*         (1), which the broker notices when it writes: what it sends     *)
(*         first is lost (2), what it sends next (3) too, or cannot be     *)
(*         sent; once that has been noticed (4) nothing can be sent, and   *)
(*         trying (5) ends the session or link                             *)
(*   cut:  the other side has hung up (its last words may be in inq)       *)
NewConn(kind) == [kind |-> kind, st |-> "a0", who |-> 0, inq |-> <<>>, out |-> <<>>, n |-> 0, cut |-> FALSE, at |-> 0, stalled |-> FALSE, deaf |-> 0]

NoVer == <<0, 0>>      \* absent from a versioned map

NewBroker(self) ==
  [ self  |-> self,
    conns |-> <<>>,
    users |-> [k \in Keys |-> 0],                \* the live session of each user (0: none)
    subs  |-> [k \in Keys |-> {}],
    links |-> [b \in Brokers |-> 0],             \* the live link to each peer
    bsubs |-> [b \in Brokers |-> {}],            \* topics each peer is interested in
    bts   |-> [b \in Brokers |-> [t \in Topics |-> NoVer]],
    dm    |-> [k \in Keys |-> NoVer],            \* where each user is: <<version, broker or 0 (deleted)>>
    fg    |-> 0,                                 \* the newest version of a key forgotten since
    lm    |-> {},                                \* keys changed locally since the last sync round
    ts    |-> [t \in Topics |-> NoVer],          \* our own interest: <<version, 1 or 0>>
    prev  |-> {},                                \* topics announced as interesting
    hku   |-> [k \in Keys |-> <<>>],             \* hook calls not collected yet
    hkb   |-> [b \in Brokers |-> <<>>],
    hbs   |-> <<>> ]                             \* heartbeats not collected yet

----------------------------------------------------------------------------
(* Queues *)

Told(x, m) ==
  IF x.st = "closed" THEN x
  ELSE IF x.deaf = 0 THEN [x EXCEPT !.out = Append(@, m)]
  ELSE [x EXCEPT !.deaf = CASE @ = 1 -> 2 [] @ \in {2, 3} -> 3 [] OTHER -> 5]

Push(s, c, m) == [s EXCEPT !.conns[c] = Told(@, m)]

PushAll(s, cs, m) ==
  [s EXCEPT !.conns = [c \in DOMAIN @ |-> IF c \in cs THEN Told(@[c], m) ELSE @[c]]]

Shut(s, c) ==
  [s EXCEPT !.conns[c].st = "closed", !.conns[c].inq = <<>>]

Refuse(s, c) == Shut(Push(s, c, [t |-> "authresp", p |-> 0, ctx |-> 0]), c)

LinkConns(s) == {s.links[b] : b \in Brokers} \ {0}

----------------------------------------------------------------------------
(* The versioned map of user locations (connections/versioned_map.rs) *)

ModifyLocal(s, k, val) ==
  [s EXCEPT !.dm[k] = <<IF @ = NoVer THEN s.fg + 1 ELSE IF k \in s.lm THEN @[1] ELSE @[1] + 1, val>>, !.lm = @ \cup {k}]

RemoteWins(l, ver, val, from, self) ==
  IF l = NoVer THEN val # 0 ELSE ver > l[1] \/ (ver = l[1] /\ from > self)

Ents(f, dom) == SetToSortSeq({<<k, f[k][1], f[k][2]>> : k \in dom}, LAMBDA a, b : a[1] < b[1])

----------------------------------------------------------------------------
(* Sessions *)

RemoveUser(s, k) ==
  LET s1 == IF s.users[k] # 0 THEN Shut(s, s.users[k]) ELSE s
      s2 == [s1 EXCEPT !.users[k] = 0, !.subs[k] = {}]
  IN  IF s2.dm[k] # NoVer /\ s2.dm[k][2] = s.self THEN ModifyLocal(s2, k, 0) ELSE s2

RECURSIVE RemoveUsers(_, _)
RemoveUsers(s, ks) ==
  IF ks = {} THEN s
  ELSE LET k == CHOOSE k \in ks : TRUE IN RemoveUsers(RemoveUser(s, k), ks \ {k})

AddUser(s, k, c, topics) ==
  LET s1 == RemoveUser(s, k)
      s2 == [s1 EXCEPT !.users[k] = c, !.conns[c].st = "live", !.conns[c].who = k, !.subs[k] = topics]
  IN  ModifyLocal(s2, k, s.self)

RemoveLink(s, b) ==
  LET s1 == IF s.links[b] # 0 THEN Shut(s, s.links[b]) ELSE s
  IN  [s1 EXCEPT !.links[b] = 0, !.bsubs[b] = {}]

AddLink(s, b, c) ==
  LET s1 == RemoveLink(s, b)
  IN  [s1 EXCEPT !.links[b] = c, !.conns[c].st = "live", !.conns[c].who = b,
                 !.bts[b] = [t \in Topics |-> NoVer]]

GiveUp(s, c) == IF s.conns[c].kind = "u" THEN RemoveUser(s, s.conns[c].who) ELSE RemoveLink(s, s.conns[c].who)

\* Whoever could not be sent to is removed.
RECURSIVE GiveUpAll(_, _)
GiveUpAll(s, cs) == IF cs = {} THEN s ELSE LET c == CHOOSE c \in cs : TRUE IN GiveUpAll(GiveUp(s, c), cs \ {c})
SweepBut(s, not) ==
  LET hit == {c \in DOMAIN s.conns : s.conns[c].deaf = 5} \ not IN
  IF hit = {} THEN s
  ELSE LET t == GiveUpAll(s, {c \in hit : s.conns[c].st = "live"})
       IN  [t EXCEPT !.conns = [c \in DOMAIN @ |-> IF c \in hit THEN [@[c] EXCEPT !.deaf = 4] ELSE @[c]]]

Sweep(s) == SweepBut(s, {})

----------------------------------------------------------------------------
(* Synchronisation between brokers (tasks/broker/sync.rs) *)

\* What changed since the last round; a deletion is sent once and then forgotten.
PartialUserSync(s) ==
  LET ks == {k \in s.lm : s.dm[k] # NoVer}
      m  == [t |-> "usync", from |-> s.self, ents |-> Ents(s.dm, ks)]
      s1 == [s EXCEPT !.lm = {}, !.dm = [k \in Keys |-> IF k \in ks /\ @[k][2] = 0 THEN NoVer ELSE @[k]],
                      !.fg = Max({@} \cup {s.dm[k][1] : k \in {k \in ks : s.dm[k][2] = 0}})]
  IN  IF ks = {} THEN s1 ELSE PushAll(s1, LinkConns(s), m)

Interest(s) == UNION {s.subs[k] : k \in Keys}

PartialTopicSync(s) ==
  LET now == Interest(s)
      chg == (now \ s.prev) \cup (s.prev \ now)
      ts2 == [t \in Topics |-> IF t \in chg THEN <<s.ts[t][1] + 1, IF t \in now THEN 1 ELSE 0>> ELSE s.ts[t]]
      s1  == [s EXCEPT !.ts = ts2, !.prev = now]
  IN  IF chg = {} THEN s
      ELSE PushAll(s1, LinkConns(s), [t |-> "tsync", ents |-> Ents(ts2, chg)])

FullSync(s, c) ==
  LET tk == {t \in Topics : s.ts[t] # NoVer}
      uk == {k \in Keys : s.dm[k] # NoVer}
      s1 == IF tk = {} THEN s ELSE Push(s, c, [t |-> "tsync", ents |-> Ents(s.ts, tk)])
  IN  IF uk = {} THEN s1 ELSE Push(s1, c, [t |-> "usync", from |-> s.self, ents |-> Ents(s.dm, uk)])

\* A peer (conflict identity `from`) tells us where users are. Whoever is taken over by another broker is
\* disconnected here.
\* That a user left another broker, or that a peer repeats that it is with us, does not concern the one it is connected
\* to: that broker claims it anew if need be.
Outlived(s, ents) == {e \in Range(ents) : e[3] \in {0, s.self} /\ s.users[e[1]] # 0}
Outlive(s, ents) ==
  LET up == {e \in Outlived(s, ents) : e[2] > s.dm[e[1]][1] \/ (e[3] = 0 /\ e[2] = s.dm[e[1]][1])}
  IN  [s EXCEPT !.dm = [k \in Keys |-> IF \E e \in up : e[1] = k THEN <<(CHOOSE e \in up : e[1] = k)[2] + 1, @[k][2]>> ELSE @[k]],
                !.lm = @ \cup {e[1] : e \in up}]

\* Who is not with us after all (a peer thinks it is) is taken out of the map, for all to know.
ApplyUserSync(s0, from, ents) ==
  LET s    == Outlive(s0, ents)
      won  == {e \in Range(ents) \ Outlived(s0, ents) : RemoteWins(s.dm[e[1]], e[2], e[3], from, s.self)}
      ks   == {e[1] : e \in won}
      new(k) == LET e == CHOOSE e \in won : e[1] = k IN IF e[3] = 0 THEN NoVer ELSE <<e[2], e[3]>>
      told == {e[2] : e \in {e \in Range(ents) \ Outlived(s0, ents) : e[3] = 0}}
  IN  RemoveUsers([s EXCEPT !.fg = Max({@} \cup told), !.dm = [k \in Keys |-> IF k \in ks THEN new(k) ELSE @[k]], !.lm = @ \ ks], ks)

ApplyTopicSync(s, b, ents) ==
  LET won == {e \in Range(ents) : s.bts[b][e[1]] = NoVer \/ e[2] > s.bts[b][e[1]][1]}
      ks  == {e[1] : e \in won}
      new(t) == CHOOSE e \in won : e[1] = t
      on  == {e[1] : e \in {e \in won : e[3] = 1}}
  IN  [s EXCEPT !.bts[b] = [t \in Topics |-> IF t \in ks THEN <<new(t)[2], new(t)[3]>> ELSE @[t]],
                !.bsubs[b] = (@ \ ks) \cup on]

----------------------------------------------------------------------------
(* Routing *)

Prune(topics) == Range(topics) \cap Topics

SendUser(s, k, m) == IF s.users[k] = 0 THEN s ELSE Push(s, s.users[k], m)

Msg(m) == [t |-> "msg", k |-> IF m.t = "direct" THEN "d" ELSE "b", id |-> m.id]

\* To the user if it is ours; to its broker if it is not, and the message came from a user.
RouteDirect(s, m, fromUser) ==
  IF m.to \notin Keys THEN s ELSE
  LET at == s.dm[m.to][2] IN
  IF at = 0 THEN s
  ELSE IF at = s.self THEN SendUser(s, m.to, Msg(m))
  ELSE IF fromUser /\ s.links[at] # 0 THEN Push(s, s.links[at], Msg(m))
  ELSE s

RouteBroadcast(s, m, ts, fromUser) ==
  LET us == {s.users[k] : k \in {k \in Keys : s.users[k] # 0 /\ s.subs[k] \cap ts # {}}}
      bs == IF fromUser THEN {s.links[b] : b \in {b \in Brokers : s.links[b] # 0 /\ s.bsubs[b] \cap ts # {}}}
            ELSE {}
  IN  PushAll(s, us \cup bs, Msg(m))

----------------------------------------------------------------------------
(* The hook *)

HookTurn == 203

HookKind(m) ==
  CASE m.t = "direct" -> "direct:" \o ToString(m.id)
    [] m.t = "bcast"  -> "bcast:" \o ToString(m.id)
    [] m.t \in {"sub", "unsub", "usync", "tsync"} -> m.t
    [] m.t = "badusync" -> "usync"
    [] m.t = "badtsync" -> "tsync"
    [] OTHER -> "auth"

HookVerdict(m) ==
  CASE m.t \in {"direct", "bcast"} -> m.h
    [] m.t \in {"sub", "unsub"} -> IF HookErr \in Range(m.topics) THEN 2
                                   ELSE IF HookSkip \in Range(m.topics) THEN 1
                                   ELSE IF HookTurn \in Range(m.topics) THEN 3 ELSE 0
    [] OTHER -> 0

\* Told to, the hook changes the message: what it leaves is what the broker acts on. (The content goes on as it came.)
TurnTopics(q) == [n \in DOMAIN q |-> IF q[n] \in 0..3 THEN 3 - q[n] ELSE q[n]]
Hooked(m) ==
  IF HookVerdict(m) # 3 THEN m
  ELSE IF m.t = "direct" THEN [m EXCEPT !.to = IF @ \in 1..4 THEN (@ % 4) + 1 ELSE @]
  ELSE [m EXCEPT !.topics = TurnTopics(@)]

CallHook(s, c, m) ==
  LET n == s.conns[c].n + 1
      w == s.conns[c].who
      s1 == [s EXCEPT !.conns[c].n = n]
  IN  IF s.conns[c].kind = "u" THEN [s1 EXCEPT !.hku[w] = Append(@, <<n, HookKind(m)>>)]
      ELSE [s1 EXCEPT !.hkb[w] = Append(@, <<n, HookKind(m)>>)]

----------------------------------------------------------------------------
(* Handling one message. `s` has it already taken off c's queue.           *)
(* `permit` is what the discovery service says about the permit shown.     *)

HandleUser(s0, c, msg) ==
  LET k == s0.conns[c].who
      m == Hooked(msg)
      s == CallHook(s0, c, msg)
      bye == RemoveUser(s, k)
  IN
  IF msg.t \in {"eof", "garbage"} THEN RemoveUser(s0, k)
  ELSE IF HookVerdict(msg) = 2 THEN bye
  ELSE IF HookVerdict(msg) = 1 THEN s
  ELSE CASE m.t = "direct" -> RouteDirect(s, m, TRUE)
         [] m.t = "bcast" -> IF Prune(m.topics) = {} THEN bye ELSE RouteBroadcast(s, m, Prune(m.topics), TRUE)
         [] m.t = "sub" -> IF Prune(m.topics) = {} THEN bye ELSE [s EXCEPT !.subs[k] = @ \cup Prune(m.topics)]
         [] m.t = "unsub" -> IF Prune(m.topics) = {} THEN bye ELSE [s EXCEPT !.subs[k] = @ \ Prune(m.topics)]
         [] OTHER -> bye

HandlePeer(s0, c, msg) ==
  LET b == s0.conns[c].who
      m == Hooked(msg)
      s == CallHook(s0, c, msg)
      bye == RemoveLink(s, b)
  IN
  IF msg.t \in {"eof", "garbage"} THEN RemoveLink(s0, b)
  ELSE IF HookVerdict(msg) = 2 THEN bye
  ELSE IF HookVerdict(msg) = 1 THEN s
  ELSE CASE m.t = "direct" -> RouteDirect(s, m, FALSE)
         [] m.t = "bcast" -> RouteBroadcast(s, m, Range(m.topics), FALSE)
         [] m.t = "usync" -> ApplyUserSync(s, m.from, m.ents)
         [] m.t = "tsync" -> ApplyTopicSync(s, b, m.ents)
         [] m.t \in {"badusync", "badtsync"} -> bye
         [] OTHER -> s

\* A user logs in with a permit, then names its topics. A session the same key already has here ends; the peers
\* are told at once.
AuthUser(s, c, m, permit) ==
  IF s.conns[c].st = "a0" THEN
    CASE m.t \in {"eof", "garbage"} -> Shut(s, c)
      [] m.t = "permit" -> IF permit = 0 THEN Refuse(s, c)
                           ELSE [Push(s, c, [t |-> "authresp", p |-> 1, ctx |-> 0])
                                 EXCEPT !.conns[c].st = "a1", !.conns[c].who = permit]
      [] OTHER -> Refuse(s, c)
  ELSE
    CASE m.t \in {"eof", "garbage"} -> Shut(s, c)
      [] m.t = "sub" -> PartialUserSync(PartialTopicSync(AddUser(s, s.conns[c].who, c, Prune(m.topics))))
      [] OTHER -> Refuse(s, c)

Flag(m, f) == f \in DOMAIN m /\ m[f]

\* A recent time signed for this purpose with the key all brokers share
GoodAuthKey(m) ==
  /\ m.t = "authkey"
  /\ m.k = BrokerKey /\ m.sk = m.k /\ m.ns = 1
  /\ m.age >= 0 /\ m.age <= MaxAge
  /\ ~Flag(m, "tamper") /\ ~Flag(m, "badkey") /\ ~Flag(m, "nosig")
GoodAuthResp(m) == m.t = "authresp" /\ m.p = 1 /\ m.ctx # 0

OwnAuthKey == [t |-> "authkey", k |-> BrokerKey, ok |-> TRUE]
Accept(s) == [t |-> "authresp", p |-> 1, ctx |-> s.self]

NewLink(s, c, b) == FullSync(AddLink(s, b, c), c)

\* Whoever is called checks first; both sides check each other before either side uses the link.
AuthPeer(s, c, m) ==
  LET kind == s.conns[c].kind
      verify == (kind = "p") = (s.conns[c].st = "a0")     \* we expect their signed timestamp now
      bad == m.t \in {"eof", "garbage"}
  IN
  IF verify THEN
    IF bad THEN Shut(s, c)
    ELSE IF ~GoodAuthKey(m) THEN Refuse(s, c)
    ELSE LET s1 == Push(s, c, Accept(s)) IN
         IF kind = "p" THEN [Push(s1, c, OwnAuthKey) EXCEPT !.conns[c].st = "a1"]
         ELSE NewLink(s1, c, s.conns[c].who)
  ELSE
    IF ~GoodAuthResp(m) THEN Shut(s, c)
    ELSE IF kind = "p" THEN NewLink(s, c, m.ctx)
    ELSE [s EXCEPT !.conns[c].st = "a1", !.conns[c].who = m.ctx]

Pop(s, c) == [s EXCEPT !.conns[c].inq = Tail(@)]

HandleOnly(s, c, permit) ==
  LET m == Head(s.conns[c].inq)
      s1 == Pop(s, c)
      u == s.conns[c].kind = "u"
  IN  IF s.conns[c].st = "live" THEN (IF u THEN HandleUser(s1, c, m) ELSE HandlePeer(s1, c, m))
      ELSE (IF u THEN AuthUser(s1, c, m, permit) ELSE AuthPeer(s1, c, m))

Handle(s, c, permit) == Sweep(HandleOnly(s, c, permit))
\* Whose own message could not be sent to it may be given up only after what it sent by then has been handled, too.
HandleLate(s, c, permit) == SweepBut(HandleOnly(s, c, permit), {c})

----------------------------------------------------------------------------
(* Periodic work *)

SyncRound(s) == Sweep(PartialTopicSync(PartialUserSync(s)))

\* Only brokers with a larger identifier are called.
DialSet(s, known) == {b \in known : b > s.self /\ s.links[b] = 0}

Dialled(b, now) == [NewConn("d") EXCEPT !.out = <<OwnAuthKey>>, !.at = now]

\* A broker registers its load for longer than it takes until its next heartbeats.
RegisteredFor == 60
Heartbeat(s) == [s EXCEPT !.hbs = Append(@, <<Cardinality({k \in Keys : s.users[k] # 0}), RegisteredFor>>)]

WhitelistRound(s, allowed) == RemoveUsers(s, {k \in Keys : s.users[k] # 0 /\ k \notin allowed})

\* Handshakes not finished after five seconds
Timeout(s, now) ==
  [s EXCEPT !.conns = [c \in DOMAIN @ |-> IF @[c].st \in {"a0", "a1", "wait"} /\ now - @[c].at >= 5000
                                          THEN [@[c] EXCEPT !.st = "closed", !.inq = <<>>] ELSE @[c]]]

----------------------------------------------------------------------------
(* What must hold of a broker in every state *)

\* A user has at most one session here, it is the one messages go to, and a broker that says "with me" means it.
OneSession(s) ==
  /\ \A c \in DOMAIN s.conns : (s.conns[c].st = "live" /\ s.conns[c].kind = "u") => s.users[s.conns[c].who] = c
  /\ \A c \in DOMAIN s.conns : (s.conns[c].st = "live" /\ s.conns[c].kind # "u") => s.links[s.conns[c].who] = c
  /\ \A k \in Keys : s.users[k] # 0 => s.conns[s.users[k]].st = "live" /\ s.conns[s.users[k]].who = k
  /\ \A b \in Brokers : s.links[b] # 0 => s.conns[s.links[b]].st = "live" /\ s.conns[s.links[b]].who = b

RouteIsLocal(s) ==
  \A k \in Keys : (s.dm[k] # NoVer /\ s.dm[k][2] = s.self) <=> s.users[k] # 0

NoGhosts(s) ==
  /\ \A k \in Keys : s.users[k] = 0 => s.subs[k] = {}
  /\ \A b \in Brokers : s.links[b] = 0 => s.bsubs[b] = {}

\* What a peer is told it is subscribed to follows from the versions kept for it
PeerInterest(s) ==
  \A b \in Brokers : s.links[b] # 0 => s.bsubs[b] = {t \in Topics : s.bts[b][t][2] = 1 /\ s.bts[b][t] # NoVer}

Announced(s) == s.prev = {t \in Topics : s.ts[t][2] = 1}

Deletions(s) == \A k \in Keys : (s.dm[k] # NoVer /\ s.dm[k][2] = 0) => k \in s.lm

CoreInv(s) == OneSession(s) /\ RouteIsLocal(s) /\ NoGhosts(s) /\ PeerInterest(s) /\ Announced(s) /\ Deletions(s)
=============================================================================
