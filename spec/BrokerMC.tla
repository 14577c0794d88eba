------------------------------ MODULE BrokerMC ------------------------------
(***************************************************************************)
(* One broker and everything that a few users and peers can do to it, one  *)
(* thing at a time: what the specification means for them, stated in terms *)
(* of what they did and were told (ghosts), and scripts, one for every     *)
(* thing that can be done in every state.                                  *)
(***************************************************************************)
EXTENDS BrokerCore, Json, IOUtils

CONSTANTS Self, Peers, What, Depth, Vers

Gen == "GEN" \in DOMAIN IOEnv
VARIABLES s,
          last,     \* what was done last, and what everybody received for it
          gsub,     \* what each live session asked for, from its requests
          gint,     \* the newest each peer said of each topic on its present link: <<version, 1 or 0>>
          told, toldu, \* the same, of what we told each peer of topics and users (and it said of them)
          said,     \* the newest version each peer sent of each user
          hist
vars == <<s, last, gsub, gint, told, toldu, said, hist>>

Linked == {b \in Peers : s.links[b] # 0}
Live == {k \in Keys : s.users[k] # 0}
Off == [t \in Topics |-> NoVer]
Nobody == [k \in Keys |-> NoVer]

Init ==
  /\ s = NewBroker(Self)
  /\ last = [op |-> "init"]
  /\ gsub = [k \in Keys |-> {}]
  /\ gint = [b \in Peers |-> Off]
  /\ told = [b \in Peers |-> Off]
  /\ toldu = [b \in Peers |-> Nobody]
  /\ said = [b \in Peers |-> [k \in Keys |-> 0]]
  /\ hist = <<>>

----------------------------------------------------------------------------
(* Who was told what in state t *)

Outs(t) == [c \in DOMAIN t.conns |-> t.conns[c].out]
Got(t, c, id) == Cardinality({j \in DOMAIN t.conns[c].out : t.conns[c].out[j].t = "msg" /\ t.conns[c].out[j].id = id})
To(t, id) == {c \in DOMAIN t.conns : Got(t, c, id) > 0}
Once(t, id) == \A c \in DOMAIN t.conns : Got(t, c, id) <= 1

RECURSIVE Learn(_, _), LearnU(_, _)
Newest(f, es) == [t \in DOMAIN f |-> LET e == {x \in Range(es) : x[1] = t /\ (f[t] = NoVer \/ x[2] > f[t][1])}
                                     IN  IF e = {} THEN f[t] ELSE LET x == CHOOSE x \in e : TRUE IN <<x[2], x[3]>>]
Learn(f, q) == IF q = <<>> THEN f ELSE Learn(IF Head(q).t = "tsync" THEN Newest(f, Head(q).ents) ELSE f, Tail(q))
\* a peer that believes only us, and forgets whom we have not here any more
Takes(f, es) == [k \in DOMAIN f |-> LET e == {x \in Range(es) : x[1] = k /\ x[2] >= f[k][1]}
                                    IN  IF e = {} THEN f[k] ELSE LET x == CHOOSE x \in e : TRUE IN IF x[3] = 0 THEN NoVer ELSE <<x[2], x[3]>>]
\* (what it said itself it believes, unless told as new of a higher one)
Says1(f, b, e) == [f EXCEPT ![e[1]] = IF e[2] = @[1] /\ @[2] = Self /\ b < Self THEN @ ELSE IF e[3] = 0 THEN NoVer ELSE <<e[2], e[3]>>]
LearnU(f, q) == IF q = <<>> THEN f ELSE LearnU(IF Head(q).t = "usync" THEN Takes(f, Head(q).ents) ELSE f, Tail(q))

Collected(t) == [t EXCEPT !.conns = [c \in DOMAIN @ |-> IF @[c].st = "closed" THEN [NewConn(@[c].kind) EXCEPT !.st = "closed", !.cut = TRUE]
                                                        ELSE [@[c] EXCEPT !.out = <<>>, !.deaf = IF @ \in {2, 3} THEN 4 ELSE @]],
                            !.hku = [k \in Keys |-> <<>>], !.hkb = [b \in Brokers |-> <<>>], !.hbs = <<>>]

\* t is what comes of `what`; what was lost on the way to a deaf one need not be noticed at once
Becomes(t0, what, ops) ==
  \E t \in {t0} \cup {GiveUp(t0, c) : c \in {c \in DOMAIN t0.conns : t0.conns[c].st = "live" /\ t0.conns[c].deaf = 3}} :
    /\ s' = Collected(t)
    /\ last' = [what EXCEPT !.to = To(t, Len(hist) + 1), !.once = Once(t, Len(hist) + 1),
                            !.users = [k \in Keys |-> s.users[k]], !.links = [b \in Peers |-> s.links[b]]]
    /\ hist' = hist \o ops \o <<[op |-> "q"]>>
    /\ LET newsess(k) == t.users[k] # s.users[k]
           newlink(b) == t.links[b] # s.links[b] IN
       /\ gsub' = [k \in Keys |-> IF t.users[k] = 0 THEN {}
                                  ELSE IF newsess(k) THEN what.subs
                                  ELSE IF what.op = "sub" /\ what.k = k THEN gsub[k] \cup what.subs
                                  ELSE IF what.op = "unsub" /\ what.k = k THEN gsub[k] \ what.subs ELSE gsub[k]]
       /\ gint' = [b \in Peers |-> IF t.links[b] = 0 \/ newlink(b) THEN Off
                                   ELSE IF what.op = "tsync" /\ what.b = b THEN Newest(gint[b], what.ents) ELSE gint[b]]
       /\ told' = [b \in Peers |-> IF t.links[b] = 0 THEN Off
                                   ELSE Learn(IF newlink(b) THEN Off ELSE told[b], t.conns[t.links[b]].out)]
       /\ said' = [b \in Peers |-> IF what.op = "usync" /\ what.b = b THEN [said[b] EXCEPT ![what.ents[1][1]] = what.ents[1][2]] ELSE said[b]]
       /\ toldu' = [b \in Peers |-> IF t.links[b] = 0 THEN Nobody
                                    ELSE LearnU(IF newlink(b) THEN Nobody
                                                ELSE IF what.op = "usync" /\ what.b = b THEN Says1(toldu[b], b, what.ents[1])
                                                ELSE toldu[b], t.conns[t.links[b]].out)]

Nothing == [op |-> "", k |-> 0, b |-> 0, subs |-> {}, ents |-> <<>>, ts |-> {}, dst |-> 0, to |-> {}, once |-> TRUE, users |-> <<>>, links |-> <<>>]

Id == Len(hist) + 1
Q(c, m) == [op |-> "send", c |-> c, m |-> m]
Hear(c, ms) == [s EXCEPT !.conns[c].inq = ms]
New(kind, ms) == [s EXCEPT !.conns = Append(@, [NewConn(kind) EXCEPT !.inq = ms])]
Seq0(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Sets == SUBSET Topics
Some == Sets \ {{}}
Can(x) == x \in What
C == Len(s.conns) + 1

Login(k, ts) ==
  LET p == 100 * k + Len(hist)   \* a permit of this user's that was never used
      ms == <<[t |-> "permit", p |-> p], [t |-> "sub", topics |-> Seq0(ts)]>> IN
  /\ Can("login")
  /\ Becomes(Handle(Handle(New("u", ms), C, k), C, 0), [Nothing EXCEPT !.op = "login", !.k = k, !.subs = ts],
             <<[op |-> "open", kind |-> "u", raw |-> TRUE], Q(C, ms[1]), Q(C, ms[2])>>)
Link(b) ==
  LET a == [t |-> "authkey", k |-> BrokerKey, sk |-> BrokerKey, ns |-> 1, age |-> 0]
      r == [t |-> "authresp", p |-> 1, ctx |-> b] IN
  /\ Can("link")
  /\ Becomes(Handle(Handle(New("p", <<a, r>>), C, 0), C, 0), [Nothing EXCEPT !.op = "link", !.b = b],
             <<[op |-> "open", kind |-> "p", raw |-> TRUE], Q(C, a), Q(C, r)>>)
Says(c, m, what) == Becomes(Handle(Hear(c, <<m>>), c, 0), what, <<Q(c, m)>>)

Senders(u, p) == (IF Can(u) THEN {s.users[k] : k \in Live} ELSE {}) \cup (IF Can(p) THEN {s.links[b] : b \in Linked} ELSE {})
Direct == \E c \in Senders("direct", "pdirect"), k \in Keys :
  Says(c, [t |-> "direct", to |-> k, id |-> Id, h |-> 0, size |-> 20],
       [Nothing EXCEPT !.op = "direct", !.dst = k, !.k = IF s.conns[c].kind = "u" THEN s.conns[c].who ELSE 0])
Bcast == \E c \in Senders("bcast", "pbcast"), ts \in Some :
  Says(c, [t |-> "bcast", topics |-> Seq0(ts), id |-> Id, h |-> 0, size |-> 20],
       [Nothing EXCEPT !.op = "bcast", !.ts = ts, !.k = IF s.conns[c].kind = "u" THEN s.conns[c].who ELSE 0])
Sub == \E k \in Live, ts \in Some, o \in {"sub", "unsub"} :
  Can("sub") /\ Says(s.users[k], [t |-> o, topics |-> Seq0(ts)], [Nothing EXCEPT !.op = o, !.k = k, !.subs = ts])
Bad == \E c \in Senders("bad", "pbad") :
  Says(c, [t |-> "garbage", id |-> 1], [Nothing EXCEPT !.op = "bad"])
TSync == \E b \in Linked, t \in Topics, v \in Vers, on \in {0, 1} :
  Can("tsync") /\ Says(s.links[b], [t |-> "tsync", ents |-> <<<<t, v, on>>>>], [Nothing EXCEPT !.op = "tsync", !.b = b, !.ents = <<<<t, v, on>>>>])
\* (a peer's own versions only grow (it doesn't start anew), and what it says is not older than what it was told; what the code does
\* with others is run all the same)
USync == \E b \in Linked, k \in Keys, v \in Vers : \E val \in {0, b, Self} :
  Can("usync") /\ (Gen \/ (v >= said[b][k] /\ v >= toldu[b][k][1])) /\ Says(s.links[b], [t |-> "usync", from |-> b, ents |-> <<<<k, v, val>>>>], [Nothing EXCEPT !.op = "usync", !.b = b, !.ents = <<<<k, v, val>>>>])
Drop == \E c \in Senders("drop", "pdrop") :
  LET h == Hear(c, <<[t |-> "eof"]>>) IN
  Becomes(Handle([h EXCEPT !.conns[c].cut = TRUE], c, 0), [Nothing EXCEPT !.op = "drop"], <<[op |-> "drop", c |-> c]>>)
Deaf == \E c \in Senders("deaf", "pdeaf") :
  /\ s.conns[c].deaf = 0
  /\ Becomes([s EXCEPT !.conns[c].deaf = 1], [Nothing EXCEPT !.op = "deaf"], <<[op |-> "deaf", c |-> c]>>)
Round == Can("round") /\ Becomes(SyncRound(s), [Nothing EXCEPT !.op = "round"], <<[op |-> "tick"]>>)

Next ==
  /\ TLCGet("level") <= Depth
  /\ \/ \E k \in Keys, ts \in (IF Can("subs") THEN Sets ELSE {Topics}) : Login(k, ts)
     \/ \E b \in Peers : Link(b)
     \/ Direct \/ Bcast \/ Sub \/ Bad \/ TSync \/ USync \/ Drop \/ Deaf \/ Round
  /\ IF Gen THEN PrintT("SCRIPT " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars

\* which connections there have been is all one
Sess(c) == IF c = 0 THEN -1 ELSE s.conns[c].deaf
State == <<[k \in Keys |-> Sess(s.users[k])], s.subs, [b \in Peers |-> Sess(s.links[b])], s.bsubs, s.bts, s.dm, s.fg, s.lm, s.ts, s.prev>>
View == IF Gen THEN State ELSE <<State, gsub, gint, told, toldu, said, TLCGet("level")>>

----------------------------------------------------------------------------
Core == CoreInv(s)

\* C04: subscriptions are what the session's own requests make them
Subs == \A k \in Live : s.subs[k] = gsub[k]

\* A message's receivers, as connections before the step
Conns(ks) == {last'.users[k] : k \in ks} \ {0}
Hearing(cs) == {c \in cs : s.conns[c].deaf = 0}

\* C01: to the session if it is here; else at most to one broker, and only from a user; to nobody else; once
DirectRight ==
  last'.op = "direct" =>
    LET at == s.users[last'.dst]
        brs == {last'.links[b] : b \in Peers} \ {0}
    IN  /\ last'.once
        /\ IF at # 0 THEN last'.to = Hearing({at})
           ELSE /\ last'.to \subseteq Hearing(brs) /\ Cardinality(last'.to) <= 1
                /\ last'.k = 0 => last'.to = {}
\* C02: all that want it here; from a user, all peers that want it
BcastRight ==
  last'.op = "bcast" =>
    LET us == {s.users[k] : k \in {k \in Live : gsub[k] \cap last'.ts # {}}}
        bs == IF last'.k = 0 THEN {} ELSE {s.links[b] : b \in {b \in Linked : \E t \in last'.ts : gint[b][t][2] = 1}}
    IN  last'.once /\ last'.to = Hearing(us \cup bs)
\* C05: after a round, and after a login, each peer that listens knows what is wanted here
TopicsTold ==
  last'.op \in {"round", "login"} =>
    \A b \in Peers : (s'.links[b] # 0 /\ s'.conns[s'.links[b]].deaf = 0) =>
      {t \in Topics : told'[b][t][2] = 1} = UNION {gsub'[k] : k \in Keys}
\* C06: and who is here; whom it wrongly thinks to be here, another claimed since
UsersTold ==
  last'.op \in {"round", "login"} =>
    \A b \in Peers : (s'.links[b] # 0 /\ s'.conns[s'.links[b]].deaf = 0) =>
      \A k \in Keys : IF s'.users[k] # 0 THEN toldu'[b][k] = <<s'.dm[k][1], Self>>
                      ELSE toldu'[b][k][2] = Self => Max({s'.dm[k][1], s'.fg}) >= toldu'[b][k][1]
\* C08: a login always gets its session, and it alone; a session ends only by what concerns it
SessionsRight ==
  /\ last'.op = "login" => s'.users[last'.k] = Len(s'.conns)
  /\ \A k \in Live : (s'.users[k] # s.users[k] /\ s.conns[s.users[k]].deaf = 0) => last'.op \in {"login", "drop", "bad", "usync", "sub", "unsub"}
  /\ \A k \in Live : last'.op \in {"login", "sub", "unsub"} /\ last'.k # k /\ s.conns[s.users[k]].deaf = 0 => s'.users[k] = s.users[k]

Right == [][DirectRight /\ BcastRight /\ TopicsTold /\ UsersTold /\ SessionsRight]_vars
=============================================================================
