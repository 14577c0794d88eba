------------------------------ MODULE VMapSync ------------------------------
(***************************************************************************)
(* One writer, one reader that only listens, and the writer's differences  *)
(* on their way in the order they were taken, each arriving once or more   *)
(* in a row: when all have arrived the reader has what the writer has.     *)
(***************************************************************************)
EXTENDS VMap
CONSTANTS Vals, MaxVer, MaxLen
VARIABLES w, r, ch
vars == <<w, r, ch>>
Init == w = NewMap(1) /\ r \in {NewMap(0), NewMap(2)} /\ ch = <<>>
Edit == /\ \E k \in Keys : \/ \E x \in Vals : w' = Insert(w, k, x) \/ w' = RemoveIfEquals(w, k, x)
                           \/ w' = Delete(w, k)
        /\ UNCHANGED <<r, ch>>
Send == ch' = Append(ch, Diff(w)) /\ w' = AfterDiff(w) /\ UNCHANGED r
Recv == ch # <<>> /\ r' = Merge(r, Head(ch)) /\ UNCHANGED w /\ (ch' = Tail(ch) \/ ch' = ch)
Next == Edit \/ Send \/ Recv
Spec == Init /\ [][Next]_vars
Bound == Len(ch) <= MaxLen /\ \A k \in Keys : w.m[k][1] <= MaxVer
Caught == (ch = <<>> /\ w.lm = {}) => Live(r) = Live(w) /\ r.m = w.m
Once == [][\A k \in Keys : (Has(w, k) /\ Has(w', k) /\ k \in w.lm) => w'.m[k][1] = w.m[k][1]]_vars
=============================================================================
