----------------------------- MODULE LinkTrace -----------------------------
(***************************************************************************)
(* Are recorded executions of a real connection's writing side behaviours  *)
(* of Link? The harness reads the other end, as much as it likes.          *)
(***************************************************************************)
EXTENDS Link, Json, IOUtils, Integers

Traces == JsonDeserialize(IOEnv.TRACES)
Focus == Range(JsonDeserialize(IOEnv.FOCUS))
Debug == "DEBUG" \in DOMAIN IOEnv /\ IOEnv.DEBUG = "1"

\* done: bytes read of this "read"; total: bytes read in all; shown: messages wholly read
\* wrote: how many bytes of messages wholly written
VARIABLES tid, i, s, done, total, shown, wrote
vars == <<tid, i, s, done, total, shown, wrote>>
Ev == Traces[tid].ev
E == Ev[i]
At(op) == i <= Len(Ev) /\ E.op = op
Step == i' = i + 1 /\ tid' = tid
Init == tid \in DOMAIN Traces /\ i = 2 /\ s = NewLink(Ev[1].room, Ev[1].bound) /\ done = 0 /\ total = 0 /\ shown = 0 /\ wrote = 0

Move ==
  /\ i <= Len(Ev) /\ UNCHANGED <<tid, i, done, total, shown>>
  /\ \/ CanPick(s) /\ s' = Pick(s) /\ UNCHANGED wrote
     \/ CanWrite(s) /\ s' = Write(s) /\ wrote' = wrote + (IF s.wr = "body" /\ s.togo = 0 THEN s.cur[2] ELSE 0)
     \/ CanQueueSoft(s) /\ (\E k \in Range(s.asked) : s' = QueueSoft(s, k)) /\ UNCHANGED wrote

Mismatch == Debug /\ PrintT(<<"MISMATCH", tid, i, "state", s, "read", done, total, shown, "got", E>>) /\ FALSE
Agree(x) == IF x THEN TRUE ELSE Mismatch

\* as much as is wanted, as soon as it is there
Read ==
  /\ At("read") /\ ~s.away /\ s.pipe > 0 /\ done < E.n
  /\ LET n == Min2(s.pipe, E.n - done) IN
     /\ s' = [s EXCEPT !.pipe = @ - n] /\ done' = done + n /\ total' = total + n
     /\ UNCHANGED <<tid, i, shown, wrote>>

\* how many of the messages sent are wholly within the first n bytes
RECURSIVE Whole(_, _, _)
Whole(n, k, acc) == IF k < Len(s.sent) /\ acc + SizeField + s.sent[k + 1][2] <= n
                    THEN Whole(n, k + 1, acc + SizeField + s.sent[k + 1][2]) ELSE k

Input ==
  /\ i <= Len(Ev) /\ E.op \notin {"read", "q"} /\ (Still(s) = TRUE) /\ Step
  /\ UNCHANGED <<done, total, shown, wrote>>
  /\ CASE E.op = "send" -> Agree(E.r = SendResult(s)) /\ s' = DoSend(s, E.id, E.size)
       [] E.op = "soft" -> s' = AskSoft(s)
       [] E.op = "drop" -> s' = LetGo(s)
       [] E.op = "away" -> s' = Away(s)
       [] E.op = "adv" -> s' = Advance(s, E.s)

ReadDone ==
  /\ At("read") /\ (Still(s) = TRUE) /\ (done = E.n \/ s.pipe = 0 \/ s.away) = TRUE
  /\ LET w == Whole(total, 0, 0) IN
     /\ Agree(/\ E.got = done
              /\ E.eof = (done < E.n /\ ~Alive(s) /\ ~s.away)
              /\ E.frames = SubSeq(s.sent, shown + 1, w))
     /\ shown' = w
  /\ Step /\ done' = 0 /\ UNCHANGED <<s, total, wrote>>

Quiet ==
  /\ At("q") /\ (Still(s) = TRUE) /\ Agree(E.softs = s.softs)
  /\ "metrics" \in Focus => Agree(E.wrote = wrote /\ E.rcvd = 0)
  /\ Step /\ UNCHANGED <<s, done, total, shown, wrote>>

Next == Move \/ Read \/ Input \/ ReadDone \/ Quiet
Spec == Init /\ [][Next]_vars
Inv == s.pipe <= s.room

Reg(t) == 100 + t
Done == TLCGet(Reg(tid)) = Len(Ev) + 1
Progress == ~Done /\ (IF TLCGet(Reg(tid)) < i THEN TLCSet(Reg(tid), i) ELSE TRUE)
ASSUME \A t \in DOMAIN Traces : TLCSet(Reg(t), 0)
Accepted ==
  \A t \in DOMAIN Traces :
    \/ TLCGet(Reg(t)) = Len(Traces[t].ev) + 1
    \/ PrintT(<<"REJECTED", t, TLCGet(Reg(t))>>)
=============================================================================
