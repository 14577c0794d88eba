----------------------------- MODULE Handshake -----------------------------
(***************************************************************************)
(* Whom a user talks to. Everything between a user and the system may be   *)
(* in somebody else's hands: that one answers in place of the marshal and  *)
(* of the broker, with any certificate it can come by. A user goes on only *)
(* with a server that proves to hold the key of a certificate, valid now   *)
(* and for the right name, of the authority the user was told to trust.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* Certificates: [ca, name, when], ca the authority whose key signed it ("twin": another key under the local one's name;
\* "self": the certificate's own). Of the two that can be trusted, the local one's key is public; the other's is nobody's here.
Trusted(local) == IF local = 1 THEN {"local"} ELSE {"prod"}
Accepts(local, c) == c.ca \in Trusted(local) /\ c.name = "espresso" /\ c.when = "now"

\* A certificate that a marshal or broker makes for itself of the authority it is configured with ("none": the local one).
Own(ca) == [ca |-> IF ca = "none" THEN "local" ELSE ca, name |-> "espresso", when |-> "now"]

\* The user's way to a session: st is where it is, told which servers have been sent something.
Start == [st |-> "start", told |-> {}]
Marshal(u, local, c) ==
  IF Accepts(local, c) THEN [st |-> "permit", told |-> u.told \cup {"marshal"}] ELSE [u EXCEPT !.st = "failed"]
Broker(u, local, c) ==
  IF Accepts(local, c) THEN [st |-> "session", told |-> u.told \cup {"broker"}] ELSE [u EXCEPT !.st = "failed"]
Session(local, m, b) ==
  LET u == Marshal(Start, local, m) IN IF u.st = "permit" THEN Broker(u, local, b) ELSE u
=============================================================================
