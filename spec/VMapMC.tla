------------------------------- MODULE VMapMC -------------------------------
(***************************************************************************)
(* Some versioned maps, edited and merged in every way (bounded versions). *)
(* The history of operations is not part of the state (VIEW), so that TLC, *)
(* asked to (GEN), prints one shortest script for every transition of the  *)
(* bounded model; the scripts are then run on the real map.                *)
(***************************************************************************)
EXTENDS VMap, Json, IOUtils

CONSTANTS N, Vals, MaxVer, Ids    \* Ids: conflict identity of each map

IdsOneTwo == [r \in 1..3 |-> r]
IdsSame == [r \in 1..3 |-> 1]

VARIABLES v, hist
vars == <<v, hist>>
View == v
Gen == "GEN" \in DOMAIN IOEnv /\ IOEnv.GEN = "1"

R == 1..N
Init == v = [r \in R |-> NewMap(Ids[r])] /\ hist = <<>>

Log(e) == hist' = (IF Gen THEN Append(hist, e) ELSE hist) /\ (Gen => PrintT("SCRIPT " \o ToJson(hist')))

Ins(r, k, x) == v' = [v EXCEPT ![r] = Insert(@, k, x)] /\ Log([op |-> "ins", m |-> r, k |-> k, v |-> x])
Rem(r, k) == v' = [v EXCEPT ![r] = Delete(@, k)] /\ Log([op |-> "rem", m |-> r, k |-> k])
Rie(r, k, x) == v' = [v EXCEPT ![r] = RemoveIfEquals(@, k, x)] /\ Log([op |-> "rie", m |-> r, k |-> k, v |-> x])
DoDiff(r) == v' = [v EXCEPT ![r] = AfterDiff(@)] /\ Log([op |-> "diff", m |-> r])
MergeFull(r, q) == v' = [v EXCEPT ![r] = Merge(@, Full(v[q]))] /\ Log([op |-> "mfull", m |-> r, n |-> q])
MergeDiff(r, q) == v' = [v EXCEPT ![r] = Merge(@, Diff(v[q])), ![q] = AfterDiff(@)]
                   /\ Log([op |-> "mdiff", m |-> r, n |-> q])

Next == \E r \in R :
  \/ \E k \in Keys : Rem(r, k) \/ \E x \in Vals : Ins(r, k, x) \/ Rie(r, k, x)
  \/ DoDiff(r)
  \/ \E q \in R \ {r} : MergeFull(r, q) \/ MergeDiff(r, q)
Spec == Init /\ [][Next]_vars

Bound == \A r \in R, k \in Keys : v[r].m[k][1] <= MaxVer

----------------------------------------------------------------------------
\* Merging again changes nothing more
Idempotent == \A r, q \in R : r # q =>
  LET a == Merge(v[r], Full(v[q])) IN Merge(a, Full(v[q])).m = a.m
\* Two maps of different identity that exchange all they have agree, whoever begins
Agree == \A r, q \in R : v[r].id # v[q].id =>
  LET a == Merge(v[r], Full(v[q]))
      b == Merge(v[q], Full(v[r]))
      c == Merge(v[q], Full(a))
  IN  Live(a) = Live(b) /\ Live(a) = Live(c)
\* A merge never lowers a version, except by deletion
Monotone == \A r, q \in R, k \in Keys :
  LET a == Merge(v[r], Full(v[q])) IN Has(a, k) => a.m[k][1] >= v[r].m[k][1]
\* Changes reported are changes of version or of value by a stronger identity
Reported == \A r, q \in R :
  LET a == Merge(v[r], Full(v[q])) IN
  \A k \in Keys : a.m[k] # v[r].m[k] => \E c \in Changes(v[r], Full(v[q])) : c[1] = k
\* Tombstones are remembered only until they are told
Untold == \A r \in R, k \in Keys : Has(v[r], k) /\ Get(v[r], k) = 0 => k \in v[r].lm
=============================================================================
