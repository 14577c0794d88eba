----------------------------- MODULE CrowdTrace -----------------------------
(***************************************************************************)
(* The client used by several tasks on several threads: what their calls   *)
(* were told and what the broker heard, put together at the end.  Every    *)
(* task has topics and messages of its own, so that their order among each *)
(* other doesn't matter.                                                   *)
(*   calm   nothing ever fails: nor do calls once the session is there     *)
(*   cuts   sessions are cut off, the next one is there soon               *)
(*   close  the client is closed at some moment                            *)
(***************************************************************************)
EXTENDS Client, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Debug == "DEBUG" \in DOMAIN IOEnv /\ IOEnv.DEBUG = "1"
VARIABLES tid, i, c, said
vars == <<tid, i, c, said>>
Ev == Traces[tid].ev
E == Ev[i]
Kind == Ev[1].kind
Set(q) == {q[k] : k \in DOMAIN q}
\* c: the client, of which only the topics held matter here; said[k]: the messages task k was told were sent
Init == tid \in DOMAIN Traces /\ i = 2 /\ c = NewClient(Set(Traces[tid].ev[1].subs)) /\ said = <<>>

\* one call, and what the client holds thereafter
Told(x, d) == IF x.r # "ok" THEN d ELSE LET e == Invoke(d, x.k, Set(x.topics), x.id) IN Acknowledge(e, Len(e.calls))
GoodCall(x) ==
  /\ x.r \in {"ok", "err"}
  /\ Kind = "calm" => x.r = "ok"
  /\ Kind = "cuts" /\ x.k = "init" => x.r = "ok"
  \* nothing succeeds any more
  /\ x.after => x.r = "err"
Calls == E.calls

Hear(h, m) == CASE m.t = "sub" -> h \cup Set(m.topics) [] m.t = "unsub" -> h \ Set(m.topics) [] OTHER -> h
Heard(j) == FoldSeq(LAMBDA m, h : Hear(h, m), {}, E.ses[j])
Order(s) == \A a, b \in DOMAIN s : a < b => s[a] < s[b]
Got == LET all == FlattenSeq(E.ses)  ms == SelectSeq(all, LAMBDA m : m.t = "msg") IN [n \in DOMAIN ms |-> ms[n].id]
Of(k) == SelectSeq(Got, LAMBDA id : id \div 10000 = k)
Final ==
  /\ Kind # "close" => E.odd = 0
  /\ \A m \in Set(FlattenSeq(E.ses)) : m.t # "odd"
  \* one attempt at a time, and each session begins with one
  /\ E.most <= 1 /\ E.attempts >= Len(E.ses)
  /\ \A k \in DOMAIN said :
       \* in order, none twice, and none that was refused
       /\ Order(Of(k)) /\ Set(Of(k)) \subseteq Set(said[k])
       /\ Kind = "calm" => Of(k) = said[k]
  \* the broker of the session in use knows what the client was told it is subscribed to
  /\ Kind # "close" => E.using = Len(E.ses) /\ Heard(E.using) = c.subs
  /\ Kind = "calm" => E.attempts = 1 /\ Len(E.ses) = 1
  \* closed for good, and promptly
  /\ Kind = "close" => E.more = 0 /\ E.left = 0 /\ E.took < 5000

Next ==
  /\ i <= Len(Ev)
  /\ LET ok == IF E.op = "task" THEN \A x \in Set(Calls) : GoodCall(x) ELSE Final IN
     IF ok THEN TRUE ELSE Debug /\ PrintT(<<"MISMATCH", tid, i, "got", E, "subs", c.subs, "heard", IF E.op = "final" /\ E.using > 0 THEN Heard(E.using) ELSE {}>>) /\ FALSE
  /\ IF E.op = "task"
     THEN /\ c' = [FoldSeq(LAMBDA x, d : Told(x, d), c, Calls) EXCEPT !.calls = <<>>]
          /\ said' = Append(said, LET s == SelectSeq(Calls, LAMBDA x : x.k = "send" /\ x.r = "ok") IN [n \in DOMAIN s |-> s[n].id])
     ELSE UNCHANGED <<c, said>>
  /\ i' = i + 1 /\ tid' = tid
Spec == Init /\ [][Next]_vars

Reg(t) == 100 + t
Progress == IF TLCGet(Reg(tid)) < i THEN TLCSet(Reg(tid), i) ELSE TRUE
ASSUME \A t \in DOMAIN Traces : TLCSet(Reg(t), 0)
Accepted ==
  \A t \in DOMAIN Traces :
    \/ TLCGet(Reg(t)) = Len(Traces[t].ev) + 1
    \/ PrintT(<<"REJECTED", t, TLCGet(Reg(t))>>)
=============================================================================
