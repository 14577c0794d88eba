----------------------------- MODULE Discovery ------------------------------
(***************************************************************************)
(* The discovery service: who is registered as a broker, with which load;  *)
(* which permits are outstanding; the whitelist                            *)
(* (cdn-proto/src/discovery: embedded.rs and redis.rs).                    *)
(*                                                                         *)
(* Pure operators on a state record. Whatever has expired stays in the     *)
(* record, but nothing may show it: the operators only look at what is     *)
(* still good. Time comes in whole seconds; nothing here depends on what   *)
(* happens at the very second of an expiry (DiscoveryTrace avoids it).     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

\* brokers: id -> [n, exp];  permits: <<[p, b, k, exp, used]>> by number;  wl: the list, once there is one
NewService == [brokers |-> <<>>, permits |-> <<>>, wlset |-> FALSE, wl |-> {}, clock |-> 0]

Live(s) == {b \in DOMAIN s.brokers : s.brokers[b].exp > s.clock}

\* A heartbeat (re-)registers the broker, for this long and with this load.
Heartbeat(s, b, n, exp) ==
  [s EXCEPT !.brokers = [x \in DOMAIN @ \cup {b} |-> IF x = b THEN [n |-> n, exp |-> s.clock + exp] ELSE @[x]]]

Good(s, p) == p \in DOMAIN s.permits /\ ~s.permits[p].used /\ s.permits[p].exp > s.clock
Outstanding(s, b) == {p \in DOMAIN s.permits : Good(s, p) /\ s.permits[p].b = b}
Load(s, b) == s.brokers[b].n + Cardinality(Outstanding(s, b))
Least(s) == {b \in Live(s) : \A o \in Live(s) : Load(s, b) <= Load(s, o)}

Others(s, b) == Live(s) \ {b}

\* A permit nobody has had before.
Issue(s, b, k, exp) ==
  [s EXCEPT !.permits = Append(@, [b |-> b, k |-> k, exp |-> s.clock + exp, used |-> FALSE])]
Redeemable(s, b, p) == Good(s, p) /\ s.permits[p].b = b
Redeem(s, b, p) == IF Redeemable(s, b, p) THEN [s EXCEPT !.permits[p].used = TRUE] ELSE s
Redeemed(s, b, p) == IF Redeemable(s, b, p) THEN s.permits[p].k ELSE 0

SetList(s, l) == [s EXCEPT !.wlset = TRUE, !.wl = l]
Admitted(s, k) == ~s.wlset \/ k \in s.wl

Advance(s, n) == [s EXCEPT !.clock = @ + n]

(* One call: what it does and which results it may give.                   *)
After(s, e) ==
  CASE e.op = "hb" -> Heartbeat(s, e.b, e.n, e.exp)
    [] e.op = "issue" -> Issue(s, e.b, e.k, e.exp)
    [] e.op = "redeem" -> Redeem(s, e.b, e.p)
    [] e.op = "setwl" -> SetList(s, Range(e.l))
    [] e.op = "adv" -> Advance(s, e.s)
    [] OTHER -> s
Allowed(s, e) ==
  CASE e.op = "hb" -> e.ret = 1
    [] e.op = "least" -> e.ret \in (IF Live(s) = {} THEN {0} ELSE Least(s))
    [] e.op = "others" -> Len(e.ret) = Cardinality(Range(e.ret)) /\ Range(e.ret) = Others(s, e.b)
    [] e.op = "issue" -> e.ret = Len(s.permits) + 1
    [] e.op = "redeem" -> e.ret = Redeemed(s, e.b, e.p)
    [] e.op = "setwl" -> e.ret = 1
    [] e.op = "checkwl" -> e.ret = (IF Admitted(s, e.k) THEN 1 ELSE 0)
    [] OTHER -> TRUE
=============================================================================
