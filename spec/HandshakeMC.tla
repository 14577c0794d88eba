---------------------------- MODULE HandshakeMC ----------------------------
(***************************************************************************)
(* The user tries again and again; each time someone else may answer. With *)
(* GEN every pair of certificates becomes a script for the real client.    *)
(***************************************************************************)
EXTENDS Handshake, TLC, Json, IOUtils
VARIABLES local, u, who, heard
vars == <<local, u, who, heard>>

Certs == [ca : {"local", "other", "twin", "self"}, name : {"espresso", "other", "longer", "under"}, when : {"now", "past", "future"}]
\* somebody else has certificates of the trusted authority at most for other names, or ones that are over
Honest(c) == Accepts(local, c)

Init == local \in {0, 1} /\ u = Start /\ who = {} /\ heard = {}
Heard(v, c, part) == IF part \in v.told \ u.told THEN {<<part, Honest(c)>>} ELSE {}
GenConnect(c) ==
  "GEN" \in DOMAIN IOEnv =>
    PrintT("SCRIPT " \o ToJson([k \in 1..2 |-> [op |-> "connect", local |-> local, over |-> <<"tls", "quic">>[k], cert |-> c @@ [gen |-> 0]]]))
Gen(m, b) ==
  "GEN" \in DOMAIN IOEnv => PrintT("SCRIPT " \o ToJson(<<[op |-> "session", local |-> local, m |-> m @@ [gen |-> 0], b |-> b @@ [gen |-> 0]]>>))
AtMarshal == u.st \in {"start", "failed"} /\ \E c \in Certs :
  LET v == Marshal(Start, local, c) IN
  /\ u' = v /\ who' = {c} /\ heard' = heard \cup Heard([v EXCEPT !.told = @ \cap {"marshal"}], c, "marshal")
  /\ GenConnect(c) /\ (v.st # "permit" => Gen(c, Own("none"))) /\ UNCHANGED local
AtBroker == u.st = "permit" /\ \E c \in Certs :
  LET v == Broker(u, local, c) IN
  /\ u' = v /\ who' = who \cup {c} /\ heard' = heard \cup Heard(v, c, "broker")
  /\ Gen(CHOOSE m \in who : TRUE, c) /\ UNCHANGED local
Lost == u.st = "session" /\ u' = Start /\ who' = {} /\ UNCHANGED <<local, heard>>
Next == AtMarshal \/ AtBroker \/ Lost
Spec == Init /\ [][Next]_vars

\* nobody but the system's own servers is ever sent anything, let alone a permit
Secret == \A h \in heard : h[2]
SessionHonest == u.st = "session" => \A c \in who : Honest(c)
\* and these are reached
Served == local = 1 => Session(1, Own("none"), Own("local")).st = "session"
Inv == Secret /\ SessionHonest /\ Served
=============================================================================
