---------------------------- MODULE MarshalTrace ----------------------------
(***************************************************************************)
(* Are recorded executions of the real marshal behaviours of Marshal?      *)
(***************************************************************************)
EXTENDS Marshal, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Debug == "DEBUG" \in DOMAIN IOEnv /\ IOEnv.DEBUG = "1"

VARIABLES tid, i, s, svc
vars == <<tid, i, s, svc>>
Ev == Traces[tid].ev
E == Ev[i]
At(op) == i <= Len(Ev) /\ E.op = op
Step == i' = i + 1 /\ tid' = tid

Init == tid \in DOMAIN Traces /\ i = 2 /\ s = NewMarshal /\ svc = NewSvc

DoOpen == At("open") /\ Step /\ s' = Open(s) /\ UNCHANGED svc
DoSend == At("send") /\ Step /\ s' = Arrive(s, E.c, E.m) /\ UNCHANGED svc
DoDrop == At("drop") /\ Step /\ s' = Arrive(s, E.c, [t |-> "eof"]) /\ UNCHANGED svc
DoSvc ==
  /\ At("svc") /\ Step
  /\ svc' = [svc EXCEPT !.brokers = {<<x[1], x[2]>> : x \in Range(E.brokers)}, !.wlset = E.wlset, !.wl = Range(E.wl),
                        !.wlfail = E.wlfail, !.leastfail = E.leastfail, !.issuefail = E.issuefail, !.delay = E.delay]
  /\ UNCHANGED s
\* Somebody connects, and that never gets anywhere.
DoStuck == At("stuck") /\ Step /\ UNCHANGED <<s, svc>>
DoAdv == At("adv") /\ Step /\ s' = Advance(s, E.s) /\ UNCHANGED svc

\* the order in which permits were issued is observed
Expected == E.issued
Plausible(t) == Debug \/ (Len(t.issued) <= Len(Expected) /\ \A j \in DOMAIN t.issued :
                   t.issued[j][2] = Expected[j][2] /\ t.issued[j][3] = Expected[j][3])

Move(c) ==
  /\ At("q") /\ UNCHANGED <<tid, i>>
  /\ LET x == s.conns[c] IN
     \/ x.st = "a0" /\ x.inq # <<>> /\ Head(x.inq)[2] - x.at < Patience /\ s' = First(s, c) /\ UNCHANGED svc
     \/ x.st = "a0" /\ Overdue(s, c) /\ s' = Shut(s, c) /\ UNCHANGED svc
     \/ x.st = "wl" /\ s' = CheckList(s, c, svc) /\ UNCHANGED svc
     \/ /\ x.st = "least" /\ UNCHANGED svc
        /\ \E b \in Least(svc) \cup (IF Live(svc) = {} THEN {0} ELSE {}) : s' = ChooseBroker(s, c, svc, b)
     \/ /\ x.st = "issue"
        /\ IF Issues(s, c, svc)
           THEN LET j == Len(s.issued) + 1 IN
                /\ j <= Len(Expected)
                /\ LET p == Expected[j][1] IN
                   /\ s' = Issue(s, c, svc, p)
                   /\ Plausible(s') = TRUE
                   /\ svc' = [svc EXCEPT !.permits = @ \cup {<<p, x.b, x.who>>}]
           ELSE s' = Issue(s, c, svc, 0) /\ UNCHANGED svc

\* a refusal may be missing: the connection is closed all the same
OutOk(got, want) == got = want \/ (got = <<>> /\ Len(want) = 1 /\ want[1].p = 0)

Observed ==
  /\ Len(E.outs) = Len(s.conns)
  /\ \A c \in DOMAIN s.conns : OutOk(E.outs[c], s.conns[c].out)
  /\ \A c \in DOMAIN s.conns : E.closed[c] = (s.conns[c].st = "closed")
  /\ [j \in DOMAIN Expected |-> <<Expected[j][1], Expected[j][2], Expected[j][3]>>] = s.issued
  /\ \A j \in DOMAIN Expected : Expected[j][4] = PermitLife
  /\ ~E.dead

Rest ==
  /\ At("q")
  /\ \A c \in DOMAIN s.conns : s.conns[c].st = "closed" \/ (s.conns[c].st = "a0" /\ s.conns[c].inq = <<>> /\ ~Overdue(s, c))
  /\ IF Observed THEN TRUE
     ELSE Debug /\ PrintT(<<"MISMATCH", tid, i, "want", s, "got", E, "svc", svc>>) /\ FALSE
  /\ Step
  /\ s' = [s EXCEPT !.issued = <<>>, !.conns = [c \in DOMAIN @ |-> [@[c] EXCEPT !.out = <<>>]]]
  /\ UNCHANGED svc

Next == DoOpen \/ DoSend \/ DoDrop \/ DoSvc \/ DoAdv \/ DoStuck \/ Rest \/ \E c \in DOMAIN s.conns : Move(c)
Spec == Init /\ [][Next]_vars

Reg(t) == 100 + t
Done == TLCGet(Reg(tid)) = Len(Ev) + 1
Progress == ~Done /\ (IF TLCGet(Reg(tid)) < i THEN TLCSet(Reg(tid), i) ELSE TRUE)
ASSUME \A t \in DOMAIN Traces : TLCSet(Reg(t), 0)
Accepted ==
  \A t \in DOMAIN Traces :
    \/ TLCGet(Reg(t)) = Len(Traces[t].ev) + 1
    \/ PrintT(<<"REJECTED", t, TLCGet(Reg(t))>>)
=============================================================================
