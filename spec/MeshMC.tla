------------------------------- MODULE MeshMC -------------------------------
(***************************************************************************)
(* Everything a few users, broken links and the brokers' own rounds can do *)
(* to the maps of N brokers: do the brokers come to agree, and on what is? *)
(***************************************************************************)
EXTENDS Mesh, Json, IOUtils

CONSTANTS N, NEnv,      \* brokers; how many things users do
          NCut,         \* how many links break
          Calm          \* users do something only when nothing is under way

Gen == "GEN" \in DOMAIN IOEnv
VARIABLES M, left, cuts, hist
vars == <<M, left, cuts, hist>>
View == <<M, left, cuts>>

Init == M = Full(N) /\ left = NEnv /\ cuts = NCut /\ hist = <<>>

Log(e) == hist' = IF Gen THEN Append(hist, e) ELSE <<>>
B == DOMAIN M

Env == left > 0 /\ (IF Calm THEN Quiet(M) ELSE TRUE) /\ left' = left - 1 /\ cuts' = cuts
Own == UNCHANGED <<left, cuts>>
Sets == {{}} \cup {{t} : t \in Topics}
Seq0(ts) == SetToSortSeq(ts, LAMBDA a, b : a < b)

ELogin == \E i \in B, k \in Keys, ts \in Sets :
  Env /\ M' = Login(M, i, k, ts) /\ Log([op |-> "login", b |-> i, k |-> k, ts |-> Seq0(ts)])
ELogout == \E i \in B, k \in Keys :
  M[i].users[k] # 0 /\ Env /\ M' = Logout(M, i, k) /\ Log([op |-> "logout", b |-> i, k |-> k])
ESub == \E i \in B, k \in Keys, t \in Topics :
  M[i].users[k] # 0 /\ t \notin M[i].subs[k] /\ Env /\ M' = Subscribe(M, i, k, {t}) /\ Log([op |-> "sub", b |-> i, k |-> k, ts |-> <<t>>])
EUnsub == \E i \in B, k \in Keys, t \in Topics :
  t \in M[i].subs[k] /\ Env /\ M' = Unsubscribe(M, i, k, {t}) /\ Log([op |-> "unsub", b |-> i, k |-> k, ts |-> <<t>>])
ECut == \E i, j \in B :
  /\ i < j /\ M[i].links[j] # 0 /\ M[j].links[i] # 0 /\ cuts > 0
  /\ cuts' = cuts - 1 /\ left' = left /\ M' = Cut(M, i, j) /\ Log([op |-> "cut", i |-> i, j |-> j])
ICall(i, j) == M[i].links[j] = 0 /\ M' = Call(M, i, j) /\ Own /\ Log([op |-> "half", i |-> i, j |-> j])
IRound(i) == (M[i].lm # {} \/ M[i].prev # Interest(M[i])) /\ M' = Round(M, i) /\ Own /\ Log([op |-> "sync", b |-> i])
IDeliver(i, j) ==
  Chan(M, i, j) # <<>> /\ M[j].links[i] # 0 /\ M' = Deliver(M, i, j) /\ Own /\ Log([op |-> "deliver", i |-> i, j |-> j])

Next ==
  /\ \/ ELogin \/ ELogout \/ ESub \/ EUnsub \/ ECut
     \/ \E i \in B : IRound(i) \/ \E j \in Others(M, i) : ICall(i, j) \/ IDeliver(i, j)
  /\ IF Gen THEN PrintT("SCRIPT " \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_vars
Fair == /\ Spec
        /\ \A i \in 1..N : WF_vars(IRound(i))
        /\ \A i, j \in 1..N : WF_vars(i # j /\ ICall(i, j)) /\ WF_vars(i # j /\ IDeliver(i, j))

----------------------------------------------------------------------------
\* Each broker keeps what it must hold by itself,
Core == \A i \in B : CoreInv(M[i])
\* once everything has been told there is one session of each user,
One == Quiet(M) => OneEach(M)
\* everyone knows where it is,
Agree == Quiet(M) => OneEach(M) /\ Routes(M)
\* and who wants which topic,
Wanted == Quiet(M) => Interests(M)
\* and that comes to pass.
Settles == <>[](Quiet(M))
=============================================================================
