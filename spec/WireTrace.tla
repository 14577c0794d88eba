----------------------------- MODULE WireTrace -----------------------------
(***************************************************************************)
(* Are recorded executions of real connections sharing a real limiter      *)
(* behaviours of Wire? At each "q" the application takes everything that   *)
(* arrives on the connections listed; the room left in the pool is probed. *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Focus == Range(JsonDeserialize(IOEnv.FOCUS))
Debug == "DEBUG" \in DOMAIN IOEnv /\ IOEnv.DEBUG = "1"

\* bytes: how much has been received in all; shares: how many shares of the pool have been taken
VARIABLES tid, i, s, got, bytes, shares
vars == <<tid, i, s, got, bytes, shares>>
counts == <<bytes, shares>>
Ev == Traces[tid].ev
E == Ev[i]
At(op) == i <= Len(Ev) /\ E.op = op
Step == i' = i + 1 /\ tid' = tid

Init == tid \in DOMAIN Traces /\ i = 2 /\ s = NewWire(Ev[1].cap) /\ got = <<>> /\ bytes = 0 /\ shares = 0

Input ==
  /\ i <= Len(Ev) /\ E.op \notin {"q", "adv"} /\ Step /\ UNCHANGED counts
  /\ CASE E.op = "open" -> s' = Open(s, E.bound) /\ got' = Append(got, <<>>)
       [] E.op = "frame" -> s' = Send(s, E.c, Frame(E.id, E.size, TRUE)) /\ got' = got
       [] E.op = "part" -> s' = Send(s, E.c, Frame(E.id, E.size, FALSE)) /\ got' = got
       [] E.op = "rest" -> s' = Rest(s, E.c) /\ got' = got
       [] E.op = "big" -> s' = Send(s, E.c, Huge) /\ got' = got
       [] E.op = "head" -> s' = Send(s, E.c, Begun(E.id, E.size)) /\ got' = got
       [] E.op = "more" -> s' = More(s, E.c) /\ got' = got
       [] E.op = "close" -> s' = Close(s, E.c) /\ got' = got
       [] E.op = "hold" -> s' = Hold(s, E.id, E.n) /\ got' = got
       [] E.op = "letgo" -> s' = LetGo(s, E.c) /\ got' = got

Time ==
  /\ At("adv") /\ (Still(s) = TRUE) /\ got' = got /\ UNCHANGED counts
  /\ LET x == Pass(s, E.to) IN s' = x /\ (IF x.clock = E.to /\ E.to \notin Due(x) THEN Step ELSE UNCHANGED <<tid, i>>)

Want(c) == IF \E d \in Range(E.drain) : d[1] = c
           THEN (CHOOSE d \in Range(E.drain) : d[1] = c)[2] ELSE <<>>

Move(c) ==
  \* before it is let go a reader may have been at what has just come
  /\ i <= Len(Ev) /\ (E.op \in {"q", "adv"} \/ (E.op = "letgo" /\ E.c = c /\ "metrics" \in Focus)) = TRUE /\ UNCHANGED <<tid, i>>
  /\ LET x == s.conns[c] IN
     \/ CanSee(x) /\ s' = See(s, c) /\ UNCHANGED <<got, counts>>
     \/ CanEnter(s, c) /\ s' = Enter(s, c) /\ shares' = shares + 1 /\ UNCHANGED <<got, bytes>>
     \/ CanFinish(x) /\ s' = Finish(s, c) /\ bytes' = bytes + Cur(x).size /\ UNCHANGED <<got, shares>>
     \/ CanHand(x) /\ s' = Hand(s, c) /\ UNCHANGED <<got, counts>>
     \/ CanEnd(x) /\ s' = End(s, c) /\ UNCHANGED <<got, counts>>
     \/ /\ At("q") /\ c \in {d[1] : d \in Range(E.drain)} /\ CanTake(s, c) /\ s' = Take(s, c) /\ UNCHANGED counts
        /\ got' = [got EXCEPT ![c] = Append(@, <<Head(x.q).id, Head(x.q).size>>)]
        /\ Debug \/ (IsPrefix(got'[c], Want(c))) = TRUE

Taken(x) == IF x.cap = 0 THEN 0
            ELSE FoldSeq(LAMBDA y, n : Len(y.q) + (IF y.rd \in {"body", "hand"} THEN 1 ELSE 0) + n, 0, x.conns)
                 + Cardinality({j \in DOMAIN x.held : x.held[j][3] > 0})
Observed ==
  /\ \A c \in DOMAIN s.conns : got[c] = Want(c)
  /\ \A d \in Range(E.drain) : s.conns[d[1]].q = <<>> /\ (d[3] = 1) = (s.conns[d[1]].rd = "dead")
  /\ "pool" \in Focus =>
       /\ (s.cap > 0 /\ s.fifo = <<>>) => E.avail = Avail(s)
       /\ s.cap > 0 => E.avail <= Avail(s)
  \* every message received is counted once, every share of the pool when it is returned
  /\ "metrics" \in Focus => E.rcvd = bytes /\ E.sent = 0 /\ E.back = shares - Taken(s)

AtRest ==
  /\ At("q") /\ (Still(s) = TRUE)
  /\ IF Observed THEN TRUE
     ELSE Debug /\ PrintT(<<"MISMATCH", tid, i, "want", s, got, "avail", Avail(s), "bytes", bytes, "back", shares - Taken(s), "got", E>>) /\ FALSE
  /\ Step
  /\ s' = s /\ UNCHANGED counts
  /\ got' = [c \in DOMAIN got |-> <<>>]

Next == Input \/ Time \/ AtRest \/ \E c \in DOMAIN s.conns : Move(c)
Spec == Init /\ [][Next]_vars

Inv == WithinPool(s) /\ FifoOk(s)

Reg(t) == 100 + t
Done == TLCGet(Reg(tid)) = Len(Ev) + 1
Progress == ~Done /\ (IF TLCGet(Reg(tid)) < i THEN TLCSet(Reg(tid), i) ELSE TRUE)
ASSUME \A t \in DOMAIN Traces : TLCSet(Reg(t), 0)
Accepted ==
  \A t \in DOMAIN Traces :
    \/ TLCGet(Reg(t)) = Len(Traces[t].ev) + 1
    \/ PrintT(<<"REJECTED", t, TLCGet(Reg(t))>>)
=============================================================================
