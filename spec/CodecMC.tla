------------------------------ MODULE CodecMC ------------------------------
(***************************************************************************)
(* Every small message in every layout: decoding undoes encoding. With GEN *)
(* each becomes a script: the real code is to decode it.                   *)
(***************************************************************************)
EXTENDS Codec, TLC, Json, IOUtils
CONSTANTS Lens, Syms
VARIABLES m, how
vars == <<m, how>>

Strings == UNION {[1..n -> Syms] : n \in Lens}
Numbers == {Zeros(8), <<1, 0, 0, 0, 0, 0, 0, 0>>, <<0, 255, 0, 0, 0, 1, 0, 128>>}
Msgs ==
  {[t |-> "key", pk |-> a, n |-> n, sig |-> b] : a \in Strings, b \in Strings, n \in Numbers}
  \cup {[t |-> "permit", n |-> n] : n \in Numbers}
  \cup {[t |-> "resp", n |-> n, s |-> a] : n \in Numbers, a \in {x \in Strings : \A k \in DOMAIN x : x[k] \in 1..127}}
  \cup {[t |-> "direct", to |-> a, m |-> b] : a \in Strings, b \in Strings}
  \cup {[t |-> "bcast", ts |-> a, m |-> b] : a \in Strings, b \in Strings}
  \cup {[t |-> k, ts |-> a] : k \in {"sub", "unsub"}, a \in Strings}
  \cup {[t |-> k, m |-> a] : k \in {"usync", "tsync"}, a \in Strings}

Init == m \in Msgs /\ how \in Layouts
Next == UNCHANGED vars
Gen == "GEN" \in DOMAIN IOEnv => PrintT("SCRIPT " \o ToJson(<<[op |-> "dec", b |-> Encode(m, how)]>>))
Spec == Init /\ [][Next]_vars
RoundTrip == Decode(Encode(m, how)) = m
Aligned == Len(Encode(m, how)) % 8 = 0
Inv == RoundTrip /\ Aligned /\ Gen
=============================================================================
