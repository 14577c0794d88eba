------------------------------ MODULE Marshal -------------------------------
(***************************************************************************)
(* The marshal: one exchange per connection. Whoever proves possession of  *)
(* a key with a fresh signature made for this purpose, and is admitted by  *)
(* the whitelist, gets a permit for the least loaded live broker and that  *)
(* broker's public endpoint; everybody else at most a refusal              *)
(* (cdn-proto connection/auth/marshal.rs, cdn-marshal/src/handlers.rs).    *)
(*                                                                         *)
(* Pure operators on a state record, used by MarshalTrace and MarshalMC.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANTS MaxAge,     \* seconds for which a signed timestamp is good
          Patience    \* seconds a connection may take

(* The discovery service as the marshal sees it:                           *)
(*   brokers: <<broker, reported load>>; permits: <<permit, broker, key>>  *)
(*   wl: the whitelist, if there is one; what fails; delay of each call    *)
NewSvc == [brokers |-> {}, permits |-> {}, wlset |-> FALSE, wl |-> {},
           wlfail |-> FALSE, leastfail |-> FALSE, issuefail |-> FALSE, delay |-> 0]

Load(svc, b) == (CHOOSE x \in svc.brokers : x[1] = b)[2] + Cardinality({p \in svc.permits : p[2] = b})
Live(svc) == {x[1] : x \in svc.brokers}
Least(svc) == {b \in Live(svc) : \A o \in Live(svc) : Load(svc, b) <= Load(svc, o)}
Admitted(svc, k) == ~svc.wlset \/ k \in svc.wl

\* st: "a0" expects the signed key; "wl", "least", "issue": the call about to be made; "closed"
NewConn(clock) == [st |-> "a0", at |-> clock, spent |-> 0, who |-> 0, b |-> 0, inq |-> <<>>, out |-> <<>>]

\* seconds for which a permit is asked to be good
PermitLife == 30

NewMarshal == [conns |-> <<>>, issued |-> <<>>, clock |-> 0]

Flag(m, f) == f \in DOMAIN m /\ m[f]

Proves(m) ==
  /\ m.t = "authkey"
  /\ m.sk = m.k /\ m.ns = 0
  /\ m.age >= 0 /\ m.age <= MaxAge
  /\ ~Flag(m, "tamper") /\ ~Flag(m, "badkey") /\ ~Flag(m, "nosig")

Shut(s, c) == [s EXCEPT !.conns[c].st = "closed", !.conns[c].inq = <<>>]
Reply(s, c, p, b) == [s EXCEPT !.conns[c].out = Append(@, [t |-> "authresp", p |-> p, ctx |-> b])]
Refuse(s, c) == Shut(Reply(s, c, 0, 0), c)

Open(s) == [s EXCEPT !.conns = Append(@, NewConn(s.clock))]
Arrive(s, c, m) ==
  IF s.conns[c].st # "a0" THEN s ELSE [s EXCEPT !.conns[c].inq = Append(@, <<m, s.clock>>)]

\* The first message decides.
First(s, c) ==
  LET m == Head(s.conns[c].inq)[1] IN
  IF m.t \in {"eof", "garbage"} THEN Shut(s, c)
  ELSE IF ~Proves(m) THEN Refuse(s, c)
  ELSE [s EXCEPT !.conns[c].st = "wl", !.conns[c].who = m.k, !.conns[c].inq = <<>>,
                 !.conns[c].spent = Head(s.conns[c].inq)[2] - s.conns[c].at]

InTime(s, c, svc) == s.conns[c].spent + svc.delay < Patience
Spend(s, c, svc) == [s EXCEPT !.conns[c].spent = @ + svc.delay]

CheckList(s, c, svc) ==
  LET t == Spend(s, c, svc) IN
  IF ~InTime(s, c, svc) THEN Shut(s, c)
  ELSE IF svc.wlfail \/ ~Admitted(svc, s.conns[c].who) THEN Refuse(t, c)
  ELSE [t EXCEPT !.conns[c].st = "least"]

\* b: any of the least loaded
ChooseBroker(s, c, svc, b) ==
  LET t == Spend(s, c, svc) IN
  IF ~InTime(s, c, svc) THEN Shut(s, c)
  ELSE IF svc.leastfail \/ Live(svc) = {} THEN Refuse(t, c)
  ELSE [t EXCEPT !.conns[c].st = "issue", !.conns[c].b = b]

\* p: a permit the service makes up
Issues(s, c, svc) == InTime(s, c, svc) /\ ~svc.issuefail
Issue(s, c, svc, p) ==
  IF ~InTime(s, c, svc) THEN Shut(s, c)
  ELSE IF svc.issuefail THEN Refuse(s, c)
  ELSE Shut(Reply([s EXCEPT !.issued = Append(@, <<p, s.conns[c].b, s.conns[c].who>>)], c, p, s.conns[c].b), c)

\* Whoever says nothing for too long is dropped.
Advance(s, n) == [s EXCEPT !.clock = @ + n]
Overdue(s, c) == s.conns[c].st = "a0" /\ s.clock - s.conns[c].at >= Patience
=============================================================================
