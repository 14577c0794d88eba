--------------------------- MODULE HandshakeTrace ---------------------------
(***************************************************************************)
(* Do the real transports, the real client, and real marshals and brokers  *)
(* under it, behave as Handshake says? Times in ms.                        *)
(***************************************************************************)
EXTENDS Handshake, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Debug == "DEBUG" \in DOMAIN IOEnv /\ IOEnv.DEBUG = "1"
VARIABLES tid, i
vars == <<tid, i>>
Ev == Traces[tid].ev
E == Ev[i]
Init == tid \in DOMAIN Traces /\ i = 1
Range(f) == {f[x] : x \in DOMAIN f}

\* each of the at most three steps of setting up a connection is given five seconds
Soon == 25000

Holds ==
  CASE E.op = "connect" ->
         IF Accepts(E.local, E.cert) THEN E.r = "ok" ELSE E.r = "err" /\ E.told = 0
    [] E.op = "odd" -> E.r = "err" /\ E.took <= Soon
    \* encrypted to one that does not understand, or the other way round: nothing gets through
    [] E.op = "plain" -> IF E.server = "tcp" THEN E.r = "err" /\ E.took <= Soon ELSE E.r \in {"err", "deaf"}
    [] E.op = "roots" -> Range(E.roots) = Trusted(E.local)
    \* the same authority for the marshal and the broker, the first time and again
    [] E.op = "asked" -> {a[1] : a \in Range(E.asked)} = {"m", "b"} /\ \A a \in Range(E.asked) : a[2] = E.local
    [] E.op = "session" ->
         LET u == Session(E.local, E.m, E.b) IN
         /\ E.r = (IF u.st = "session" THEN "ok" ELSE "err")
         /\ E.toldm = (IF "marshal" \in u.told THEN 1 ELSE 0)
         /\ E.toldb = (IF "broker" \in u.told THEN 1 ELSE 0)
    [] E.op = "system" -> E.r = (IF Session(E.local, Own(E.mca), Own(E.bca)).st = "session" THEN "ok" ELSE "err")

Next ==
  /\ i <= Len(Ev)
  /\ IF Holds THEN TRUE ELSE Debug /\ PrintT(<<"MISMATCH", tid, i, "got", E>>) /\ FALSE
  /\ i' = i + 1 /\ tid' = tid
Spec == Init /\ [][Next]_vars

Reg(t) == 100 + t
Progress == IF TLCGet(Reg(tid)) < i THEN TLCSet(Reg(tid), i) ELSE TRUE
ASSUME \A t \in DOMAIN Traces : TLCSet(Reg(t), 0)
Accepted ==
  \A t \in DOMAIN Traces :
    \/ TLCGet(Reg(t)) = Len(Traces[t].ev) + 1
    \/ PrintT(<<"REJECTED", t, TLCGet(Reg(t))>>)
=============================================================================
