----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Does the real code encode and decode messages, and the names of         *)
(* brokers, as Codec says? What is no message (cut off, damaged, noise)    *)
(* gives an error, or a message that survives being encoded itself.        *)
(***************************************************************************)
EXTENDS Codec, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Debug == "DEBUG" \in DOMAIN IOEnv /\ IOEnv.DEBUG = "1"
VARIABLES tid, i
vars == <<tid, i>>
Ev == Traces[tid].ev
E == Ev[i]
Init == tid \in DOMAIN Traces /\ i = 1

Holds ==
  CASE E.op \in {"enc", "dec"} -> E.r = "ok" /\ Decode(E.b) = E.m
    [] E.op = "big" -> E.r = "same"
    \* E.of: the message it was before
    [] E.op = "cut" -> E.r = "err"
    [] E.op = "tail" -> E.r = "err" \/ (E.r = "ok" /\ E.m = E.of)
    [] E.op = "noise" -> E.r = "err" \/ (E.r = "ok" /\ E.again = 1)
    [] E.op = "name" -> E.b = Named(E.pub, E.prv)
    [] E.op = "parse" ->
         CASE Slashes(E.b) = {} -> E.r = "err"
           [] Cardinality(Slashes(E.b)) = 1 -> E.r = "ok" /\ E.pub = Public(E.b) /\ E.prv = Private(E.b)
           [] OTHER -> E.r = "err" \/ (E.r = "ok" /\ E.pub = Public(E.b))

Next ==
  /\ i <= Len(Ev)
  /\ IF Holds THEN TRUE ELSE Debug /\ PrintT(<<"MISMATCH", tid, i, "want", IF E.op \in {"enc", "dec"} THEN Decode(E.b) ELSE <<>>, "got", E>>) /\ FALSE
  /\ i' = i + 1 /\ tid' = tid
Spec == Init /\ [][Next]_vars

Reg(t) == 100 + t
Progress == IF TLCGet(Reg(tid)) < i THEN TLCSet(Reg(tid), i) ELSE TRUE
ASSUME \A t \in DOMAIN Traces : TLCSet(Reg(t), 0)
Accepted ==
  \A t \in DOMAIN Traces :
    \/ TLCGet(Reg(t)) = Len(Traces[t].ev) + 1
    \/ PrintT(<<"REJECTED", t, TLCGet(Reg(t))>>)
=============================================================================
