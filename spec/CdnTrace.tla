------------------------------ MODULE CdnTrace ------------------------------
(***************************************************************************)
(* Are recorded executions of the whole system behaviours of Cdn?          *)
(***************************************************************************)
EXTENDS Cdn, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Focus == LET f == JsonDeserialize(IOEnv.FOCUS) IN {f[j] : j \in DOMAIN f}
Debug == "DEBUG" \in DOMAIN IOEnv /\ IOEnv.DEBUG = "1"
See(f) == "all" \in Focus \/ f \in Focus

VARIABLES tid, i, s
vars == <<tid, i, s>>
Ev == Traces[tid].ev
E == Ev[i]
At(op) == i <= Len(Ev) /\ E.op = op
Step == i' = i + 1 /\ tid' = tid

Init == tid \in DOMAIN Traces /\ i = 2 /\ s = NewCdn(Ev[1].n)

Input ==
  /\ i <= Len(Ev) /\ E.op # "q" /\ Step
  /\ s' = CASE E.op = "up" -> Up(s, E.b, E.now)
            [] E.op = "crash" -> Crash(s, E.b, E.now)
            [] E.op = "start" -> Start(s, E.k, Range(E.topics), E.now)
            [] E.op = "stop" -> Stop(s, E.i, E.now)
            [] E.op = "kick" -> Kick(s, E.i, E.now)
            [] E.op = "cut" -> Cut(s, E.now)
            [] E.op = "adv" -> s
            [] E.op = "direct" -> Send(s, E.id, [kind |-> "d", from |-> E.i, to |-> E.to, topics |-> {}, at |-> E.now])
            [] E.op = "bcast" -> Send(s, E.id, [kind |-> "b", from |-> E.i, to |-> 0, topics |-> Range(E.topics), at |-> E.now])
            [] E.op \in {"sub", "unsub"} -> Subscribe(s, E.id, E.i, E.op = "sub", Range(E.topics), E.now)

\* the messages sent since the last observation
New == {id \in DOMAIN s.sent : id \notin s.prompt}
Seen(kind) == (kind = "d" /\ See("direct")) \/ (kind = "b" /\ See("bcast")) \/ kind = "?"
Ids(n) == {E.got[n][j][2] : j \in DOMAIN E.got[n]}

Deliveries ==
  /\ Len(E.got) = Len(s.inst)
  /\ \A n \in DOMAIN E.got :
       /\ \A j \in DOMAIN E.got[n] :
            LET id == E.got[n][j][2] IN
            Seen(E.got[n][j][1]) =>
              /\ May(s, n, id)
              /\ s.sent[id].kind = E.got[n][j][1]
              /\ <<n, id>> \notin s.got
              /\ \A l \in 1..(j - 1) : E.got[n][l][2] # id
       /\ \A id \in New : (Seen(s.sent[id].kind) /\ Must(s, n, id)) => id \in Ids(n)
       \* in the order sent (ids grow)
       /\ See("order") => \A j, l \in DOMAIN E.got[n] :
            LET a == E.got[n][j][2]
                b == E.got[n][l][2]
            IN (j < l /\ a \in DOMAIN s.sent /\ b \in DOMAIN s.sent /\ s.sent[a].from = s.sent[b].from /\ s.sent[b].at >= s.calm) => a < b

\* what a client with a session asks for succeeds
Calls ==
  \A id \in New : s.inst[s.sent[id].from].on /\ s.up # {} /\ s.sent[id].at >= s.calm =>
    \E j \in DOMAIN E.ret : E.ret[j][1] = id /\ E.ret[j][2]

Pairs(q) == {<<q[j][1], q[j][2]>> : j \in DOMAIN q}
Quiet == Settled(s, E.now)
Sessions ==
  LET ks == {s.inst[n].k : n \in {n \in DOMAIN s.inst : s.inst[n].on}} IN
  Quiet => /\ ks \subseteq {p[1] : p \in Pairs(E.user)}
           /\ {p[1] : p \in Pairs(E.user)} \subseteq ks \cup s.ghosts
           /\ \A p, r \in Pairs(E.user) : (p[1] = r[1] /\ Certain(s, p[1])) => p = r
           /\ Len(E.user) = Cardinality(Pairs(E.user))
           /\ \A p \in Pairs(E.user) : p[2] \in s.up
Mesh ==
  Quiet => /\ Pairs(E.broker) = {p \in s.up \X s.up : p[1] < p[2]}
           /\ Len(E.broker) = Cardinality(Pairs(E.broker))
Loads ==
  Quiet => /\ {E.load[j][1] : j \in DOMAIN E.load} = s.up
           /\ \A j \in DOMAIN E.load :
                E.load[j][3] >= s.calm => E.load[j][2] = Cardinality({p \in Pairs(E.user) : p[2] = E.load[j][1]})

Observed ==
  /\ ~E.dead
  /\ Deliveries
  /\ See("calls") => Calls
  /\ See("sessions") => Sessions
  /\ See("mesh") => Mesh
  /\ See("loads") => Loads

RECURSIVE Returned(_, _)
Returned(t, j) ==
  IF j > Len(E.ret) THEN t
  ELSE Returned(IF E.ret[j][2] /\ E.ret[j][1] \in DOMAIN t.subs THEN Subscribed(t, E.ret[j][1]) ELSE t, j + 1)

Look ==
  /\ At("q")
  /\ IF Observed THEN TRUE
     ELSE Debug /\ PrintT(<<"MISMATCH", tid, i, "deliveries", Deliveries, "calls", Calls, "sessions", Sessions, "mesh", Mesh, "loads", Loads,
                            "state", s, "quiet", Quiet, "got", E>>) /\ FALSE
  /\ Step
  /\ s' = [Returned(s, 1) EXCEPT !.got = @ \cup UNION {{<<n, id>> : id \in Ids(n)} : n \in DOMAIN E.got},
                                 !.prompt = DOMAIN s.sent]

Next == Input \/ Look
Spec == Init /\ [][Next]_vars

Reg(t) == 100 + t
Done == TLCGet(Reg(tid)) = Len(Ev) + 1
Progress == ~Done /\ (IF TLCGet(Reg(tid)) < i THEN TLCSet(Reg(tid), i) ELSE TRUE)
ASSUME \A t \in DOMAIN Traces : TLCSet(Reg(t), 0)
Accepted ==
  \A t \in DOMAIN Traces :
    \/ TLCGet(Reg(t)) = Len(Traces[t].ev) + 1
    \/ PrintT(<<"REJECTED", t, TLCGet(Reg(t))>>)
=============================================================================
