------------------------------ MODULE VMapTrace ------------------------------
(***************************************************************************)
(* Do recorded executions of the real versioned map follow VMap? Every     *)
(* operation's result and the contents of every map after it are compared. *)
(***************************************************************************)
EXTENDS VMap, Json, IOUtils, Integers

Traces == JsonDeserialize(IOEnv.TRACES)
Debug == "DEBUG" \in DOMAIN IOEnv /\ IOEnv.DEBUG = "1"

VARIABLES tid, i, v, kept
vars == <<tid, i, v, kept>>
Ev == Traces[tid].ev
E == Ev[i]

Init == /\ tid \in DOMAIN Traces /\ i = 2 /\ kept = <<>>
        /\ v = [r \in DOMAIN Ev[1].ids |-> NewMap(Ev[1].ids[r])]

After(e) ==
  CASE e.op = "ins" -> [v EXCEPT ![e.m] = Insert(@, e.k, e.v)]
    [] e.op = "rem" -> [v EXCEPT ![e.m] = Delete(@, e.k)]
    [] e.op = "rie" -> [v EXCEPT ![e.m] = RemoveIfEquals(@, e.k, e.v)]
    [] e.op = "rbv" -> [v EXCEPT ![e.m] = RemoveByValue(@, e.v)]
    [] e.op = "diff" -> [v EXCEPT ![e.m] = AfterDiff(@)]
    [] e.op = "full" -> v
    [] e.op = "mfull" -> [v EXCEPT ![e.m] = Merge(@, Full(v[e.n]))]
    [] e.op = "mdiff" -> [v EXCEPT ![e.m] = Merge(@, Diff(v[e.n])), ![e.n] = AfterDiff(@)]
    [] e.op = "mold" -> [v EXCEPT ![e.m] = Merge(@, kept[e.d])]

Kept(e) == CASE e.op = "diff" -> Append(kept, Diff(v[e.m]))
             [] e.op = "full" -> Append(kept, Full(v[e.m]))
             [] OTHER -> kept

Ret(e) == CASE e.op = "diff" -> Entries(Diff(v[e.m]).m)
            [] e.op = "full" -> Entries(v[e.m].m)
            [] e.op = "mfull" -> Sorted(Changes(v[e.m], Full(v[e.n])))
            [] e.op = "mdiff" -> Sorted(Changes(v[e.m], Diff(v[e.n])))
            [] e.op = "mold" -> Sorted(Changes(v[e.m], kept[e.d]))
            [] OTHER -> <<>>

Agrees(w) ==
  /\ "ret" \in DOMAIN E => E.ret = Ret(E)
  /\ \A r \in DOMAIN w : /\ E.st[r] = Entries(w[r].m)
                         /\ \A k \in Keys : E.get[r][k] = Get(w[r], k)
                         /\ E.empty[r] = (\A k \in Keys : ~Has(w[r], k))

Next ==
  /\ i <= Len(Ev) /\ i' = i + 1 /\ tid' = tid
  /\ v' = After(E) /\ kept' = Kept(E)
  /\ IF Agrees(v') THEN TRUE
     ELSE /\ Debug
          /\ PrintT(<<"MISMATCH", tid, i, "want", [r \in DOMAIN v' |-> Entries(v'[r].m)], Ret(E), "got", E>>)
          /\ FALSE
Spec == Init /\ [][Next]_vars

Reg(t) == 100 + t
Progress == IF TLCGet(Reg(tid)) < i THEN TLCSet(Reg(tid), i) ELSE TRUE
ASSUME \A t \in DOMAIN Traces : TLCSet(Reg(t), 0)
Accepted ==
  \A t \in DOMAIN Traces :
    \/ TLCGet(Reg(t)) = Len(Traces[t].ev) + 1
    \/ PrintT(<<"REJECTED", t, TLCGet(Reg(t))>>)
=============================================================================
