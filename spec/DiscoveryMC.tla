---------------------------- MODULE DiscoveryMC -----------------------------
(***************************************************************************)
(* All histories of calls to a small discovery service, for checking that  *)
(* Discovery says what it should, and for scripts (one for every call in   *)
(* every state).                                                           *)
(***************************************************************************)
EXTENDS Discovery, Json, IOUtils
CONSTANTS Brokers, Keys, Loads, Expiries, Steps, MaxPermits, MaxClock, What
VARIABLES s, hist, given
(* given: what every redemption that succeeded gave: <<permit, broker, key, when>> *)
vars == <<s, hist, given>>

Lists == {SetToSeq(l) : l \in SUBSET Keys}
Calls ==
  (IF "hb" \in What THEN [op : {"hb"}, b : Brokers, n : Loads, exp : Expiries] ELSE {}) \cup
  (IF "hb" \in What THEN {[op |-> "least", by |-> 0]} \cup [op : {"others"}, b : Brokers \cup {0}] ELSE {}) \cup
  (IF "issue" \in What /\ Len(s.permits) < MaxPermits THEN [op : {"issue"}, b : Brokers, k : Keys, exp : Expiries] ELSE {}) \cup
  (IF "issue" \in What THEN [op : {"redeem"}, b : Brokers, p : DOMAIN s.permits \cup {902}, by : {0}] ELSE {}) \cup
  (IF "wl" \in What THEN [op : {"setwl"}, l : Lists] \cup [op : {"checkwl"}, k : Keys] ELSE {}) \cup
  (IF s.clock < MaxClock THEN [op : {"adv"}, s : Steps] ELSE {})

Init == s = NewService /\ hist = <<>> /\ given = {}
Next == \E e \in Calls :
  /\ s' = After(s, e)
  /\ hist' = Append(hist, e)
  /\ given' = IF e.op = "redeem" /\ Redeemed(s, e.b, e.p) # 0
              THEN given \cup {<<e.p, e.b, Redeemed(s, e.b, e.p), s.clock, Len(hist)>>} ELSE given
Gen == "GEN" \in DOMAIN IOEnv => PrintT("SCRIPT " \o ToJson(hist'))
Spec == Init /\ [][Next /\ Gen]_vars

\* for scripts: what has expired is all one
Rel(t) == IF t > s.clock THEN t - s.clock ELSE 0
View == <<[b \in DOMAIN s.brokers |-> <<s.brokers[b].n, Rel(s.brokers[b].exp)>>],
          [p \in DOMAIN s.permits |-> <<s.permits[p].b, s.permits[p].k, s.permits[p].used, Rel(s.permits[p].exp)>>],
          s.wlset, s.wl, s.clock >= MaxClock>>
\* for checking: the ghost is part of the state
ViewMC == <<s, {<<x[1], x[2], x[3], x[4]>> : x \in given}, Cardinality(given)>>

Single == \A x, y \in given : x[1] = y[1] => x = y
Bound_ == \A x \in given : LET q == s.permits[x[1]] IN q.b = x[2] /\ q.k = x[3] /\ x[4] < q.exp /\ q.used
LiveOnly == \A b \in Least(s) : s.brokers[b].exp > s.clock
Someone == Live(s) # {} => Least(s) # {}
NotSelf == \A b \in Brokers : b \notin Others(s, b) /\ Others(s, b) \cup ({b} \cap Live(s)) = Live(s)
Open == ~s.wlset => \A k \in Keys : Admitted(s, k)
=============================================================================
