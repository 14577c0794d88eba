----------------------------- MODULE MetricsMC -----------------------------
(***************************************************************************)
(* Does the running latency mean what it says?  Against a list of all that *)
(* was ever observed, window by window.                                    *)
(***************************************************************************)
EXTENDS Metrics, TLC, Json, IOUtils
CONSTANT MaxOps, Sizes
VARIABLES m, all, ops
vars == <<m, all, ops>>

\* all: the windows so far, the last still open
Init == m = Fresh /\ all = << <<>> >> /\ ops = <<>>
Say(l) ==
  /\ Len(ops) < MaxOps
  /\ m' = Observe(m, l)
  /\ all' = [all EXCEPT ![Len(all)] = @ \o l]
  /\ ops' = Append(ops, [op |-> "observe", l |-> l])
Close ==
  /\ Len(ops) < MaxOps
  /\ m' = Window(m)
  /\ all' = Append(all, <<>>)
  /\ ops' = Append(ops, [op |-> "window"])
Next == (\E n \in 0..2, x \in Sizes : Say([j \in 1..n |-> x + j])) \/ Close
Spec == Init /\ [][Next]_vars

\* the last window that closed with anything observed in it
Spoken == {k \in 1..Len(all) - 1 : all[k] # <<>>}
RunningIsTheLastWindows ==
  IF Spoken = {} THEN m.running = <<0, 1>>
  ELSE LET k == CHOOSE k \in Spoken : \A j \in Spoken : j <= k IN m.running = <<SumSeq(all[k]), Len(all[k])>>
NeverUndone == [][m'.sum >= m.sum /\ m'.n >= m.n]_vars

Gen == IF Len(ops) = MaxOps /\ "GEN" \in DOMAIN IOEnv THEN PrintT("SCRIPT " \o ToJson(Append(ops, [op |-> "window"]))) ELSE TRUE
=============================================================================
