------------------------------ MODULE Metrics ------------------------------
(***************************************************************************)
(* The latency a process publishes: each observation is added to a sum and *)
(* a count that only ever grow; once every window the running latency is   *)
(* set to the mean of what was observed since the last time, and is left   *)
(* as it was when that is nothing.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

\* what is known of the latencies: their sum and number (all, and as of the last window), and the running latency
\* as a pair, sum and number, since it need not be whole
Fresh == [sum |-> 0, n |-> 0, oldsum |-> 0, oldn |-> 0, running |-> <<0, 1>>]
Observe(m, l) == [m EXCEPT !.sum = @ + SumSeq(l), !.n = @ + Len(l)]
Window(m) ==
  [m EXCEPT !.oldsum = m.sum, !.oldn = m.n, !.running = IF m.n = m.oldn THEN @ ELSE <<m.sum - m.oldsum, m.n - m.oldn>>]
=============================================================================
