---------------------------- MODULE StreamTrace ----------------------------
EXTENDS Stream, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Focus == Range(JsonDeserialize(IOEnv.FOCUS))
Debug == "DEBUG" \in DOMAIN IOEnv /\ IOEnv.DEBUG = "1"
VARIABLES tid, i, s
vars == <<tid, i, s>>
Ev == Traces[tid].ev
E == Ev[i]
At(op) == i <= Len(Ev) /\ E.op = op
Step == i' = i + 1 /\ tid' = tid
Init == tid \in DOMAIN Traces /\ i = 2 /\ s = NewStream(Ev[1].conns)

Mismatch == Debug /\ PrintT(<<"MISMATCH", tid, i, "state", s, "got", E>>) /\ FALSE
Agree(x) == IF x THEN TRUE ELSE Mismatch

\* a send succeeds as long as neither side has gone and none of the directions is known to have ended
Sends(d) ==
  /\ At("send") /\ Step
  /\ IF E.r = "ok" THEN s' = Send(s, E.d, E.id, E.size)
     ELSE s' = s /\ Agree(s[Other(E.d)].gone \/ s[Other(E.d)].closed \/ s[E.d].closed)

Input ==
  /\ i <= Len(Ev) /\ E.op \in {"soft", "drop"} /\ Step
  /\ CASE E.op = "soft" -> IF E.r = "ok" THEN s' = SoftClosed(s, E.d)
                           ELSE s' = s /\ Agree(s[Other(E.d)].gone \/ s[Other(E.d)].closed \/ s[E.d].closed)
       [] E.op = "drop" -> s' = LetGo(s, E.d)

\* what was received on the directions listed, [d, messages, end seen, waited for all]
RECURSIVE Take(_, _, _)
Take(x, d, q) ==
  IF q = <<>> THEN x
  ELSE IF CanArrive(x, d) /\ x[d].sent[x[d].arrived + 1] = Head(q) THEN Take(Arrive(x, d), d, Tail(q))
  ELSE [x EXCEPT ![d].arrived = Len(x[d].sent) + 1]
Ok(x, d) == x[d].arrived <= Len(x[d].sent)
\* messages first (all directions), then the ends
RECURSIVE Takes(_, _)
Takes(x, l) == IF l = <<>> THEN x ELSE Takes(Take(x, Head(l)[1], Head(l)[2]), Tail(l))
Ended(x) == [d \in DOMAIN x |-> IF \E r \in Range(E.got) : r[1] = d /\ r[3] = 1 THEN [x[d] EXCEPT !.err = TRUE] ELSE x[d]]
Receive ==
  /\ At("q") /\ Step
  /\ LET x == Takes(s, E.got) y == Ended(x) IN
     /\ Agree(/\ \A d \in DOMAIN x : Ok(x, d)
              /\ \A r \in Range(E.got) : (r[3] = 1 /\ ~s[r[1]].err) => CanEnd(x, r[1])
              /\ \A r \in Range(E.got) : Settled(y, r[1])
              /\ E.held <= E.pool)
     /\ s' = y
\* who sends to a peer that takes nothing in is told so
DoDam == /\ At("dam") /\ Step /\ s' = s
         /\ Agree(E.told # "never" /\ E.took <= 12000)
Next == Receive \/ DoDam \/ Input \/ (At("send") /\ Sends(E.d))
Spec == Init /\ [][Next]_vars

Reg(t) == 100 + t
Done == TLCGet(Reg(tid)) = Len(Ev) + 1
Progress == ~Done /\ (IF TLCGet(Reg(tid)) < i THEN TLCSet(Reg(tid), i) ELSE TRUE)
ASSUME \A t \in DOMAIN Traces : TLCSet(Reg(t), 0)
Accepted ==
  \A t \in DOMAIN Traces :
    \/ TLCGet(Reg(t)) = Len(Traces[t].ev) + 1
    \/ PrintT(<<"REJECTED", t, TLCGet(Reg(t))>>)
=============================================================================
