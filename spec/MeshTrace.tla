------------------------------ MODULE MeshTrace ------------------------------
(***************************************************************************)
(* Do recorded executions of the real maps of several brokers follow Mesh? *)
(* What is sent, and what the brokers touched hold afterwards, is compared *)
(* at each step; what they must have come to agree on, whenever everything *)
(* has been told.                                                          *)
(***************************************************************************)
EXTENDS Mesh, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Focus == Range(JsonDeserialize(IOEnv.FOCUS))
Debug == "DEBUG" \in DOMAIN IOEnv /\ IOEnv.DEBUG = "1"

VARIABLES tid, i, M
vars == <<tid, i, M>>
Ev == Traces[tid].ev
E == Ev[i]
N == Ev[1].n

Init == tid \in DOMAIN Traces /\ i = 2 /\ M = Full(Ev[1].n)

After(e) ==
  CASE e.op = "login" -> Login(M, e.b, e.k, Range(e.ts))
    [] e.op = "logout" -> Logout(M, e.b, e.k)
    [] e.op = "sub" -> Subscribe(M, e.b, e.k, Range(e.ts))
    [] e.op = "unsub" -> Unsubscribe(M, e.b, e.k, Range(e.ts))
    [] e.op = "sync" -> Round(M, e.b)
    [] e.op = "deliver" -> Deliver(M, e.i, e.j)
    [] e.op = "half" -> Call(M, e.i, e.j)
    [] e.op = "cut" -> Cut(M, e.i, e.j)
    [] OTHER -> M

Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
See(s) ==
  [ b |-> s.self,
    dm |-> Ents(s.dm, {k \in Keys : s.dm[k] # NoVer}),
    users |-> Sorted({k \in Keys : s.users[k] # 0}),
    at |-> [k \in 1..4 |-> s.dm[k][2]],
    links |-> Sorted({b \in Brokers : s.links[b] # 0}),
    interest |-> [t \in 1..3 |-> <<Sorted({b \in Brokers : t - 1 \in s.bsubs[b]}), Sorted({k \in Keys : t - 1 \in s.subs[k]})>>],
    num |-> Cardinality({k \in Keys : s.users[k] # 0}) ]

\* What was added to the channels, in their order

Pairs == {p \in (1..N) \X (1..N) : p[1] # p[2]}
Had(e, x, y) == IF e.op = "half" /\ e.i = x /\ e.j = y THEN 0
                ELSE IF e.op = "cut" /\ {x, y} = {e.i, e.j} THEN 0
                ELSE IF e.op = "deliver" /\ e.i = x /\ e.j = y THEN Len(Chan(M, x, y)) - 1
                ELSE Len(Chan(M, x, y))
SentTo(w, e, x, y) == SubSeq(Chan(w, x, y), Had(e, x, y) + 1, Len(Chan(w, x, y)))
GotTo(e, x, y) == LET s == SelectSeq(e.sent, LAMBDA m : m[1] = x /\ m[2] = y) IN [n \in DOMAIN s |-> s[n][3]]

\* Users and interests are told and kept apart; Focus says which are looked at.
Looked == (IF {"sessions", "routes"} \cap Focus # {} THEN {"dm", "users", "at", "num"} ELSE {})
          \cup (IF "interest" \in Focus THEN {"interest"} ELSE {}) \cup {"links"}
Of(s) == SelectSeq(s, LAMBDA m : IF m.t = "usync" THEN "dm" \in Looked ELSE "interest" \in Looked)
Agrees(w) ==
  /\ \A n \in DOMAIN E.st : \A f \in Looked : E.st[n][f] = See(w[E.st[n].b])[f]
  /\ E.op # "settled" => \A p \in Pairs : Of(SentTo(w, E, p[1], p[2])) = Of(GotTo(E, p[1], p[2]))

\* After everything has been told, seen from outside (C06, C08, C02): at most one session of each user; with two
\* brokers, or if users did nothing while anything was under way, everyone knows where it is.
Calm == "calm" \in DOMAIN Ev[1] /\ Ev[1].calm
There(k) == {n \in DOMAIN E.st : k \in Range(E.st[n].users)}
Outside ==
  E.op = "settled" =>
    /\ "sessions" \in Focus => \A k \in Keys : Cardinality(There(k)) <= 1 \/ N > 3
    /\ ("routes" \in Focus /\ (N = 2 \/ Calm)) => \A k \in Keys : There(k) # {} => \A n \in DOMAIN E.st : E.st[n].at[k] \in There(k)
    /\ "interest" \in Focus => \A t \in 1..3, n, o \in DOMAIN E.st : n # o =>
         (o \in Range(E.st[n].interest[t][1]) <=> E.st[o].interest[t][2] # <<>>)

Next ==
  /\ i <= Len(Ev) /\ i' = i + 1 /\ tid' = tid
  /\ E.op # "unsettled"
  /\ M' = After(E)
  /\ IF Agrees(M') /\ Outside THEN TRUE
     ELSE /\ Debug
          /\ PrintT(<<"MISMATCH", tid, i, "want", IF E.op = "settled" THEN "agreement" ELSE [n \in DOMAIN E.st |-> See(M'[E.st[n].b])], "got", E>>)
          /\ FALSE
Spec == Init /\ [][Next]_vars

Reg(t) == 100 + t
Progress == IF TLCGet(Reg(tid)) < i THEN TLCSet(Reg(tid), i) ELSE TRUE
ASSUME \A t \in DOMAIN Traces : TLCSet(Reg(t), 0)
Accepted ==
  \A t \in DOMAIN Traces :
    \/ TLCGet(Reg(t)) = Len(Traces[t].ev) + 1
    \/ PrintT(<<"REJECTED", t, TLCGet(Reg(t))>>)
=============================================================================
