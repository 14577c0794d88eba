-------------------------------- MODULE Cdn --------------------------------
(***************************************************************************)
(* What the whole system promises its users, whatever brokers, links and   *)
(* connections do: brokers, a marshal and clients seen from outside.       *)
(*                                                                         *)
(* Some time after the last change (`calm`) the system has settled: every  *)
(* pair of brokers is linked once, every key has one session, and each     *)
(* message sent reaches exactly those it is for, in the order sent. Before *)
(* that messages may be lost, but never reach anybody else, never twice,   *)
(* and never changed.                                                      *)
(*                                                                         *)
(* Pure operators on a state record; times are in ms.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANTS Soon,     \* after a connection, link or subscription changed: two rounds of synchronisation
          Boot,     \* after a broker started
          Expire    \* after a broker crashed: until its registration is forgotten and its users are elsewhere

\* inst: the clients, [k |-> key, on, lo, hi]: topics surely and possibly subscribed
\* sent: message id -> [kind, from, to, topics, at]; subs: call id -> [i, add, topics]; got: <<client, id>> delivered
\* dirty: keys whose session changed while something else was changing; recent: since it was last settled
\* ghosts: keys that may have a session although nobody uses it
NewCdn(n) == [n |-> n, recent |-> {}, dirty |-> {}, inst |-> <<>>, up |-> {}, calm |-> 0, sent |-> << >>, subs |-> << >>, got |-> {}, prompt |-> {}, ghosts |-> {}]

Change(s, now, d) == [s EXCEPT !.calm = Max({@, now + d})]
Settled(s, now) == s.up # {} /\ now >= s.calm

Keys(s) == {s.inst[i].k : i \in DOMAIN s.inst}
\* Sessions change, or something else does. Several changes at once may leave a third broker with a route
\* that nobody corrects (known findings of C06), so with three brokers nothing is expected of such keys.
Sess(s, ks, now) ==
  IF Settled(s, now) THEN [s EXCEPT !.recent = ks]
  ELSE [s EXCEPT !.recent = @ \cup ks, !.dirty = @ \cup (ks \cap Keys(s))]
Links(s, ks, now) ==
  IF Settled(s, now) THEN [s EXCEPT !.recent = ks]
  ELSE [s EXCEPT !.recent = @ \cup ks, !.dirty = @ \cup s.recent \cup ks]
Certain(s, k) == s.n < 3 \/ k \notin s.dirty

Up(s, b, now) == Change([Links(s, {}, now) EXCEPT !.up = @ \cup {b}], now, Boot)
Crash(s, b, now) == Change([Links(s, Keys(s), now) EXCEPT !.up = @ \ {b}], now, Expire)
Kick(s, i, now) == Change(Sess(s, {s.inst[i].k}, now), now, Soon)
Cut(s, now) == Change(Links(s, {}, now), now, Soon)
Start(s, k, topics, now) ==
  Change([Sess(s, {k}, now) EXCEPT !.inst = Append([i \in DOMAIN @ |-> IF @[i].k = k THEN [@[i] EXCEPT !.on = FALSE] ELSE @[i]],
                                   [k |-> k, on |-> TRUE, lo |-> topics, hi |-> topics]),
                   !.ghosts = @ \ {k}], now, Soon)
\* A client that goes before the system has settled may leave the one it replaced in place.
Stop(s, i, now) == Change([Sess(s, {s.inst[i].k}, now) EXCEPT !.inst[i].on = FALSE,
                                    !.ghosts = IF Settled(s, now) THEN @ ELSE @ \cup {s.inst[i].k}], now, Soon)

\* While it is not settled, a call may fail; then nothing is known about it.
Send(s, id, m) == [s EXCEPT !.sent = @ @@ (id :> m)]
Subscribe(s, id, i, add, topics, now) ==
  Change([s EXCEPT !.subs = @ @@ (id :> [i |-> i, add |-> add, topics |-> topics]),
                   !.inst[i].lo = IF add THEN @ ELSE @ \ topics,
                   !.inst[i].hi = IF add THEN @ \cup topics ELSE @], now, Soon)
\* what was asked for later stands
Later(s, id) == UNION {s.subs[x].topics : x \in {x \in DOMAIN s.subs : x > id /\ s.subs[x].i = s.subs[id].i /\ s.subs[x].add # s.subs[id].add}}
Subscribed(s, id) ==
  LET c == s.subs[id] IN
  IF c.add THEN [s EXCEPT !.inst[c.i].lo = @ \cup (c.topics \ Later(s, id))]
  ELSE [s EXCEPT !.inst[c.i].hi = @ \ (c.topics \ Later(s, id))]

For(s, i, id, topics) ==
  LET m == s.sent[id] IN IF m.kind = "d" THEN s.inst[i].k = m.to ELSE m.topics \cap topics # {}
May(s, i, id) == id \in DOMAIN s.sent /\ For(s, i, id, s.inst[i].hi)
\* nothing has changed since it was sent, nor for long before
Must(s, i, id) == s.inst[i].on /\ s.sent[id].at >= s.calm /\ s.up # {} /\ For(s, i, id, s.inst[i].lo)
  /\ (s.sent[id].kind = "d" => Certain(s, s.inst[i].k))
=============================================================================
