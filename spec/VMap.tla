-------------------------------- MODULE VMap --------------------------------
(***************************************************************************)
(* The versioned map with which brokers tell each other where users are    *)
(* and what topics they want (cdn-broker connections/versioned_map.rs).    *)
(*                                                                         *)
(* A map is [id, m, lm, fg]: its conflict identity, its entries                *)
(* <<version, value>> (value 0: deleted, NoVer: no entry), the keys        *)
(* changed locally since the last difference was taken, and the newest     *)
(* version of a deletion no longer kept: what is unknown gets a newer one. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANTS Keys

NoVer == <<0, 0>>
NewMap(id) == [id |-> id, m |-> [k \in Keys |-> NoVer], lm |-> {}, fg |-> 0]

Has(v, k) == v.m[k] # NoVer
Get(v, k) == v.m[k][2]
Live(v) == [k \in Keys |-> v.m[k][2]]

\* A local change; only the first since the last difference raises the version.
Modify(v, k, val) ==
  [v EXCEPT !.m[k] = <<IF ~Has(v, k) THEN v.fg + 1 ELSE IF k \in v.lm THEN @[1] ELSE @[1] + 1, val>>,
            !.lm = @ \cup {k}]
Insert(v, k, val) == Modify(v, k, val)
Delete(v, k) == Modify(v, k, 0)
RemoveIfEquals(v, k, val) == IF Get(v, k) = val THEN Delete(v, k) ELSE v
\* not a local change: the others are not told
RemoveByValue(v, val) == [v EXCEPT !.m = [k \in Keys |-> IF @[k][2] = val THEN NoVer ELSE @[k]]]

\* What is sent: a conflict identity and entries
Full(v) == [id |-> v.id, m |-> v.m]
DiffKeys(v) == {k \in v.lm : Has(v, k)}
Diff(v) == [id |-> v.id, m |-> [k \in Keys |-> IF k \in DiffKeys(v) THEN v.m[k] ELSE NoVer]]
\* deletions are told once and then forgotten
Tombs(m) == {m[k][1] : k \in {k \in Keys : m[k][2] = 0}}     \* (0 among them where there is no entry)
AfterDiff(v) == [v EXCEPT !.lm = {}, !.fg = Max({@} \cup Tombs(Diff(v).m)), !.m = [k \in Keys |-> IF k \in v.lm /\ @[k][2] = 0 THEN NoVer ELSE @[k]]]

Wins(v, k, r) ==
  /\ r.m[k] # NoVer
  /\ IF ~Has(v, k) THEN r.m[k][2] # 0
     ELSE r.m[k][1] > v.m[k][1] \/ (r.m[k][1] = v.m[k][1] /\ r.id > v.id)
Won(v, r) == {k \in Keys : Wins(v, k, r)}
Merge(v, r) ==
  [v EXCEPT !.fg = Max({@} \cup Tombs(r.m)),
            !.m = [k \in Keys |-> IF ~Wins(v, k, r) THEN @[k] ELSE IF r.m[k][2] = 0 THEN NoVer ELSE r.m[k]],
            !.lm = @ \ {k \in Won(v, r) : Has(v, k)}]
\* what the caller is told
Changes(v, r) == {<<k, r.m[k][2]>> : k \in Won(v, r)}

Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a[1] < b[1])
Entries(m) == Sorted({<<k, m[k][1], m[k][2]>> : k \in {k \in Keys : m[k] # NoVer}})
=============================================================================
