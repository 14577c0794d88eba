----------------------------- MODULE ClientTrace ----------------------------
(***************************************************************************)
(* Are recorded executions of the real client behaviours of Client? The    *)
(* harness plays the marshal and the broker as the last "env" event says.  *)
(* Times are milliseconds of virtual time.                                 *)
(***************************************************************************)
EXTENDS Client, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Debug == "DEBUG" \in DOMAIN IOEnv /\ IOEnv.DEBUG = "1"

VARIABLES tid, i, c, env
vars == <<tid, i, c, env>>
Ev == Traces[tid].ev
E == Ev[i]
At(op) == i <= Len(Ev) /\ E.op = op
Step == i' = i + 1 /\ tid' = tid
Set(q) == {q[k] : k \in DOMAIN q}

CONSTANTS RetryWithin,   \* how soon after a failure the next attempt starts, at the latest
          GiveUpMin, GiveUpMax  \* for how long an attempt without answers goes on

Init == tid \in DOMAIN Traces /\ i = 2 /\ c = NewClient(Set(Traces[tid].ev[1].subs)) /\ env = [m |-> "ok", b |-> "ok", answer |-> "", now |-> 0]

DoEnv == At("env") /\ Step /\ env' = [env EXCEPT !.m = E.m, !.b = E.b, !.answer = ""]
         /\ c' = IF env.m = "gone" /\ E.m # "gone" THEN [c EXCEPT !.free = env.now] ELSE c
DoCall == At("call") /\ Step /\ c' = Invoke(c, E.k, Set(E.topics), E.id) /\ UNCHANGED env
DoCancel == At("cancel") /\ Step /\ c' = Cancel(c, E.n) /\ UNCHANGED env
DoPark == At("park") /\ Step /\ c' = [c EXCEPT !.calls[E.n].parked = E.on] /\ UNCHANGED env
DoPush == At("push") /\ Step /\ UNCHANGED env
          /\ c' = IF c.ses[E.j].peer = 0 /\ ~c.ses[E.j].left THEN [c EXCEPT !.ses[E.j].inbox = Append(@, E.id)] ELSE c
DoDrop == At("drop") /\ Step /\ c' = [c EXCEPT !.ses[E.j].peer = IF @ = 0 THEN 1 ELSE @] /\ UNCHANGED env
DoAdv == At("adv") /\ Step /\ UNCHANGED <<c, env>>
\* the answer an attempt was waiting for
DoAnswer == At("answer") /\ Step /\ env' = [env EXCEPT !.answer = E.how] /\ UNCHANGED c

Now == env.now
Soon(t, u) == u >= t /\ u - t <= 100

(* Calls. The results are observed; they choose between what is possible.  *)
Res(n) == E.ret[n].r
Quick(n) ==
  /\ Res(n) # "p"
  /\ IF ~Ready(c) THEN c' = NoSession(c, n, Now)
     ELSE IF Res(n) = "ok" THEN CanTake(c, n) /\ c' = Take(c, n)
     ELSE c' = [c EXCEPT !.calls[n].st = "use", !.calls[n].j = c.cur]
\* Steps that must come and that nothing else depends on are taken first, in a fixed order (there may be many
\* receivers when a session is lost).
Must(n) ==
  LET x == c.calls[n] IN
  /\ n \in DOMAIN E.ret /\ ~x.parked
  /\ CASE x.st \in {"on", "use"} -> Res(n) = "err" /\ c.ses[x.j].left
       [] x.st = "guard" -> ~c.pend /\ Res(n) = InitEnd(c, n).calls[n].r
       [] OTHER -> FALSE
Musts == {n \in DOMAIN c.calls : Must(n)}
First(n) == LET ms == Musts IN ms = {} \/ n = CHOOSE m \in ms : \A o \in ms : m <= o

Move(n) ==
  /\ At("q") /\ UNCHANGED <<tid, i, env>>
  /\ First(n) = TRUE
  /\ LET x == c.calls[n] IN
     /\ ~x.parked /\ x.st # "done" /\ n \in DOMAIN E.ret
     /\ CASE x.st = "new" /\ x.k \in {"send", "sub", "unsub", "flush"} -> Quick(n)
          [] x.st = "new" /\ x.k = "recv" ->
               \* or it fails as others do while the reconnection is about to begin
               IF c.pend /\ Res(n) = "err" THEN \/ c' = Err(c, n) \/ c' = RecvStart(c, n, Now)
               ELSE c' = RecvStart(c, n, Now)
          [] x.st = "new" /\ x.k = "init" -> c' = InitStart(c, n, Now)
          [] x.st = "new" /\ x.k = "close" -> c' = Close(c, n, Now)
          [] x.st = "use" -> CanFail(c, n) /\ c' = Fail(c, n)
          [] x.st = "lock" -> ~c.pend /\ c' = RecvStart(c, n, Now)
          [] x.st = "guard" -> ~c.pend /\ c' = InitEnd(c, n)
          [] x.st = "on" /\ Must(n) -> c' = Break(c, n)
          [] x.st = "on" /\ Res(n) = "p" -> FALSE
          [] x.st = "on" -> IF Res(n) = "msg" THEN CanGet(c, n) /\ Head(c.ses[x.j].inbox) = E.ret[n].id /\ c' = Get(c, n)
                            ELSE \/ CanGet(c, n) /\ Head(c.ses[x.j].inbox) = -1 /\ c' = Get(c, n)
                                 \/ CanBreak(c, n) /\ c' = Break(c, n)

(* Attempts                                                                *)
FailFast(how) == how \in {"refuse", "wrong", "garbage", "drop"}
Seen == E.att[Len(c.att) + 1]
\* how the attempt that starts at t gets on with the marshal and the broker as they are
Fate(d, t, m, b) ==
  IF m = "silent" THEN d
  ELSE IF FailFast(m) THEN EndTry(d, t)
  ELSE IF b = "gone" THEN EndTry(d, t)
  ELSE LET f == [d EXCEPT !.att[Len(d.att)].ph = "b"] IN
       IF b = "silent" THEN f ELSE IF FailFast(b) THEN EndTry(f, t) ELSE Established(f, t)
Start ==
  /\ At("q") /\ Musts = {} /\ UNCHANGED <<tid, i, env>>
  /\ c.pend /\ ~Busy(c) /\ env.m # "gone" /\ Len(c.att) < Len(E.att)
  /\ Seen.start >= c.free /\ Seen.start <= c.free + RetryWithin /\ Seen.start <= E.now
  \* one that says nothing was given up at once (the client was closed)
  /\ c' = IF Seen.auth THEN Fate(StartTry(c, Seen.start), Seen.start, env.m, env.b) ELSE StartTry(c, Seen.start)
\* an attempt that gets no answer is given up
GiveUp ==
  /\ At("q") /\ Musts = {} /\ UNCHANGED <<tid, i, env>>
  /\ Busy(c) /\ env.answer = "" /\ Len(E.att) >= Len(c.att)
  /\ LET o == E.att[Len(c.att)] IN
     /\ o.end # -1 /\ o.end - o.start >= GiveUpMin /\ o.end - o.start <= GiveUpMax
     /\ c' = EndTry(c, o.end)
Answered ==
  /\ At("q") /\ Musts = {} /\ UNCHANGED <<tid, i>>
  /\ env.answer # "" /\ env' = [env EXCEPT !.answer = ""]
  /\ IF ~Busy(c) THEN UNCHANGED c
     ELSE IF c.att[Len(c.att)].ph = "b"
     THEN c' = IF env.answer = "ok" THEN Established(c, Now) ELSE EndTry(c, Now)
     ELSE c' = Fate(c, Now, env.answer, env.b)

Sess(j) == LET o == E.ses[j] IN
  /\ Set(o.topics) = c.ses[j].topics
  /\ o.closed = (c.ses[j].left \/ c.ses[j].peer > 0)
  /\ LET got == [k \in DOMAIN o.got |-> [t |-> o.got[k].t, id |-> o.got[k].id, topics |-> Set(o.got[k].topics)]] IN
     \* what was on its way when the client gave the session up may be lost
     IF c.ses[j].left THEN IsPrefix(got, c.ses[j].out) ELSE got = c.ses[j].out
Observed ==
  /\ Len(E.ret) = Len(c.calls) /\ Len(E.att) = Len(c.att) /\ Len(E.ses) = Len(c.ses)
  /\ \A n \in DOMAIN c.calls : c.calls[n].r = "cancelled" \/ (E.ret[n].r = c.calls[n].r /\ E.ret[n].id = c.calls[n].rid)
  /\ \A a \in DOMAIN c.att : LET o == E.att[a]
                                 d == c.att[a] IN
       /\ o.start = d.start /\ o.ph = d.ph
       /\ IF ~o.auth THEN c.closed /\ a = Len(c.att) /\ Soon(d.start, d.end)
          ELSE IF d.end = -1 THEN o.end = -1 /\ E.now - d.start <= GiveUpMax ELSE Soon(d.end, o.end)
  /\ \A j \in DOMAIN c.ses : Sess(j)
  /\ E.stray = 0 /\ E.closed = c.closed
\* while the topics are being told to a broker they cannot change
Greeting(d) == Busy(d) /\ d.att[Open(d)].ph = "b"
\* a future nobody polls may be the one whose turn it is
Queued(n) == \E p \in DOMAIN c.calls : p # n /\ c.calls[p].parked /\ c.calls[p].st = "new" /\ c.calls[p].k \in {"sub", "unsub"}
Still ==
  /\ env.answer = ""
  /\ \A n \in DOMAIN c.calls : LET x == c.calls[n] IN
       x.parked \/ CASE x.st = "new" -> x.k \in {"sub", "unsub"} /\ (Greeting(c) \/ Queued(n))
                     [] x.st = "use" -> FALSE
                     [] x.st \in {"lock", "guard"} -> c.pend
                     [] x.st = "on" -> \/ ~CanGet(c, n) /\ ~CanBreak(c, n)
                                      \* a future nobody polls may have been the one that was woken
                                      \/ \E p \in DOMAIN c.calls : c.calls[p].parked /\ c.calls[p].st = "on" /\ c.calls[p].j = x.j
                     [] OTHER -> TRUE
  /\ c.pend => Busy(c) \/ env.m = "gone" \/ E.now < c.free + RetryWithin
Rest ==
  /\ At("q") /\ Still = TRUE
  /\ IF Observed THEN TRUE
     ELSE Debug /\ PrintT(<<"MISMATCH", tid, i, "want", c, "got", E, "env", env>>) /\ FALSE
  /\ Step /\ env' = [env EXCEPT !.now = E.now]
  /\ c' = [c EXCEPT !.ses = [j \in DOMAIN @ |-> [@[j] EXCEPT !.out = <<>>,
                                                  !.peer = IF @ = 1 /\ c.ses[j].wrote THEN 2 ELSE @]]]

Next == DoEnv \/ DoCall \/ DoCancel \/ DoPark \/ DoPush \/ DoDrop \/ DoAdv \/ DoAnswer \/ Rest
        \/ Start \/ GiveUp \/ Answered \/ \E n \in DOMAIN c.calls : Move(n)
Spec == Init /\ [][Next]_vars

Reg(t) == 100 + t
Done == TLCGet(Reg(tid)) = Len(Ev) + 1
Progress == ~Done /\ (IF TLCGet(Reg(tid)) < i THEN TLCSet(Reg(tid), i) ELSE TRUE)
ASSUME \A t \in DOMAIN Traces : TLCSet(Reg(t), 0)
Accepted ==
  \A t \in DOMAIN Traces :
    \/ TLCGet(Reg(t)) = Len(Traces[t].ev) + 1
    \/ PrintT(<<"REJECTED", t, TLCGet(Reg(t))>>)
=============================================================================
