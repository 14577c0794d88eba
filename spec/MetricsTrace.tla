---------------------------- MODULE MetricsTrace ----------------------------
(***************************************************************************)
(* Does a process publish what Metrics says?  Observations in ms, sums and *)
(* means in microseconds; a sum of ms and one of microseconds are kept     *)
(* apart so that both stay small.  What the page says comes as pairs, of   *)
(* the whole and the millionths.                                           *)
(***************************************************************************)
EXTENDS Metrics, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Debug == "DEBUG" \in DOMAIN IOEnv /\ IOEnv.DEBUG = "1"
VARIABLES tid, i, m, us, running
vars == <<tid, i, m, us, running>>
Ev == Traces[tid].ev
E == Ev[i]
\* m: the latencies, in ms; us: what else there was since the last window, in microseconds
Init == /\ tid \in DOMAIN Traces /\ i = 2 /\ m = Fresh /\ us = 0
        /\ running = Ev[1].running

\* the mean of all since the last window, in microseconds
Mean(x) ==
  LET s == x.sum - x.oldsum  n == x.n - x.oldn IN
  (s \div n) * 1000 + ((s % n) * 1000 + us) \div n
Close == IF m.n = m.oldn THEN E.running = running ELSE E.running \in Mean(m) - 2 .. Mean(m) + 2
Ends == E.op = "window" \/ (E.op = "look" /\ E.end = 1)

Holds ==
  CASE E.op = "observe" -> TRUE
    [] Ends -> Close
    [] E.op = "look" -> E.running = running
    \* each byte of each message, and nothing else, once on either side
    [] E.op = "traffic" -> E.sent = SumSeq(E.l) /\ E.rcvd = SumSeq(E.l)
    [] E.op = "hold" -> E.count = 1 /\ E.sum \in E.least - 3 .. E.most + 3
    [] E.op = "scrape" -> E.page = E.true
    \* on both pages the same process
    [] E.op = "live" ->
         /\ E.r.r = "ok"
         /\ \A p \in 1..2 : /\ E.r.before[p][1] # -1 /\ E.r.before[p][2] # -1
                            /\ E.r.during[p] = <<E.r.before[p][1] + 1, E.r.before[p][2]>>

Next ==
  /\ i <= Len(Ev)
  /\ IF Holds THEN TRUE
     ELSE Debug /\ PrintT(<<"MISMATCH", tid, i, "got", E, "wanted", IF Ends /\ m.n # m.oldn THEN Mean(m) ELSE running>>) /\ FALSE
  /\ m' = CASE E.op = "observe" -> Observe(m, E.l)
            [] E.op = "hold" -> Observe(m, <<0>>)
            [] Ends -> Window(m)
            [] OTHER -> m
  /\ us' = CASE E.op = "hold" -> us + E.sum
             [] Ends -> 0
             [] OTHER -> us
  /\ running' = IF Ends THEN E.running ELSE running
  /\ i' = i + 1 /\ tid' = tid
Spec == Init /\ [][Next]_vars

Reg(t) == 100 + t
Progress == IF TLCGet(Reg(tid)) < i THEN TLCSet(Reg(tid), i) ELSE TRUE
ASSUME \A t \in DOMAIN Traces : TLCSet(Reg(t), 0)
Accepted ==
  \A t \in DOMAIN Traces :
    \/ TLCGet(Reg(t)) = Len(Traces[t].ev) + 1
    \/ PrintT(<<"REJECTED", t, TLCGet(Reg(t))>>)
=============================================================================
