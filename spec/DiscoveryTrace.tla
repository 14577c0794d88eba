--------------------------- MODULE DiscoveryTrace ---------------------------
(***************************************************************************)
(* Do recorded executions of the real discovery clients follow Discovery?  *)
(* Calls made at the same time (op "conc") may have happened in any order. *)
(***************************************************************************)
EXTENDS Discovery, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Debug == "DEBUG" \in DOMAIN IOEnv /\ IOEnv.DEBUG = "1"

VARIABLES tid, i, s, done
vars == <<tid, i, s, done>>
Ev == Traces[tid].ev
E == Ev[i]

Init == tid \in DOMAIN Traces /\ i = 2 /\ s = NewService /\ done = {}

Call(e) == IF Allowed(s, e) THEN TRUE
           ELSE Debug /\ PrintT(<<"MISMATCH", tid, i, "call", e, "in", s>>) /\ FALSE

One ==
  /\ i <= Len(Ev) /\ E.op # "conc"
  /\ Call(E)
  /\ s' = After(s, E) /\ i' = i + 1 /\ UNCHANGED <<tid, done>>

\* numbers of permits issued at the same time are told apart by what they were issued for
Some(e) == IF e.op = "issue"
           THEN IF e.ret \in DOMAIN s.permits THEN s.permits[e.ret].b = 0
                ELSE e.ret > 0 /\ e.ret <= Len(s.permits) + 4
           ELSE Call(e)
Hole == [b |-> 0, k |-> 0, exp |-> 0, used |-> TRUE]
IssueAs(e) ==
  LET n == Len(s.permits)
      q == [b |-> e.b, k |-> e.k, exp |-> s.clock + e.exp, used |-> FALSE] IN
  [s EXCEPT !.permits = [j \in 1..(IF e.ret > n THEN e.ret ELSE n) |-> IF j = e.ret THEN q ELSE IF j <= n THEN @[j] ELSE Hole]]
Conc ==
  /\ i <= Len(Ev) /\ E.op = "conc"
  /\ \E j \in DOMAIN E.ops \ done :
       LET e == E.ops[j] IN
       /\ Some(e)
       /\ s' = IF e.op = "issue" THEN IssueAs(e) ELSE After(s, e)
       /\ IF done \cup {j} = DOMAIN E.ops
          THEN i' = i + 1 /\ done' = {}
          ELSE i' = i /\ done' = done \cup {j}
  /\ UNCHANGED tid

Next == One \/ Conc
Spec == Init /\ [][Next]_vars

Reg(t) == 100 + t
Progress == IF TLCGet(Reg(tid)) < i THEN TLCSet(Reg(tid), i) ELSE TRUE
ASSUME \A t \in DOMAIN Traces : TLCSet(Reg(t), 0)
Accepted ==
  \A t \in DOMAIN Traces :
    \/ TLCGet(Reg(t)) = Len(Traces[t].ev) + 1
    \/ PrintT(<<"REJECTED", t, TLCGet(Reg(t))>>)
=============================================================================
