------------------------------ MODULE MarshalMC ------------------------------
(***************************************************************************)
(* The marshal against anybody: keys 1 (honest) and 2 (an adversary, who   *)
(* can sign only with key 2 but repeats anything key 1 ever signed), and a *)
(* discovery service that changes and fails as it likes.                   *)
(***************************************************************************)
EXTENDS Marshal

CONSTANTS MaxConns, MaxPermits, Ages

AllAges == {-1, 0, 5, 6}

VARIABLES s, svc, proof, ok
vars == <<s, svc, proof, ok>>
(* proof[c]: the key the connection really proved, and when                *)
(* ok: every permit issued so far was issued rightly (ghost)               *)

Msgs == [t : {"authkey"}, k : {1, 2}, sk : {1, 2}, ns : {0, 1}, age : Ages] \cup
        {[t |-> "garbage"], [t |-> "sub"], [t |-> "eof"],
         [t |-> "authkey", k |-> 2, sk |-> 2, ns |-> 0, age |-> 0, tamper |-> TRUE]}

Init == s = NewMarshal /\ svc = [NewSvc EXCEPT !.brokers = {<<1, 0>>, <<2, 1>>}] /\ proof = <<>> /\ ok = TRUE

Flip(f) == svc' = [svc EXCEPT ![f] = ~@]
Svc == /\ \/ \E f \in {"wlset", "wlfail", "leastfail", "issuefail"} : Flip(f)
          \/ \E w \in SUBSET {1, 2} : svc' = [svc EXCEPT !.wl = w]
          \/ \E b \in SUBSET {<<1, 0>>, <<2, 1>>} : svc' = [svc EXCEPT !.brokers = b]
       /\ UNCHANGED <<s, proof, ok>>
DoOpen == Len(s.conns) < MaxConns /\ s' = Open(s) /\ proof' = Append(proof, 0) /\ UNCHANGED <<svc, ok>>
DoSend(c) == /\ s.conns[c].st = "a0" /\ s.conns[c].inq = <<>>
             /\ \E m \in Msgs : s' = Arrive(s, c, m)
             /\ UNCHANGED <<svc, proof, ok>>
Move(c) ==
  LET x == s.conns[c] IN
  \/ /\ x.st = "a0" /\ x.inq # <<>> /\ s' = First(s, c)
     /\ proof' = [proof EXCEPT ![c] = LET m == Head(x.inq)[1] IN
          IF m.t = "authkey" /\ m.age \in 0..MaxAge /\ m.sk = m.k /\ m.ns = 0 /\ ~Flag(m, "tamper") THEN m.sk ELSE 0]
     /\ UNCHANGED <<svc, ok>>
  \/ x.st = "wl" /\ s' = CheckList(s, c, svc) /\ UNCHANGED <<svc, proof, ok>>
     \* what the list said then is what counts
  \/ x.st = "least" /\ (\E b \in Least(svc) \cup (IF Live(svc) = {} THEN {0} ELSE {}) : s' = ChooseBroker(s, c, svc, b))
     /\ ok' = (ok /\ (s'.conns[c].st = "issue" => \A o \in Live(svc) : Load(svc, s'.conns[c].b) <= Load(svc, o)))
     /\ UNCHANGED <<svc, proof>>
  \/ /\ x.st = "issue"
     /\ LET p == 2 + Len(s.issued) IN
        /\ s' = Issue(s, c, svc, p)
        /\ svc' = IF Issues(s, c, svc) THEN [svc EXCEPT !.permits = @ \cup {<<p, x.b, x.who>>}] ELSE svc
        /\ ok' = (ok /\ (Issues(s, c, svc) => proof[c] # 0 /\ proof[c] = x.who /\ x.b # 0))
     /\ UNCHANGED proof
Next == Svc \/ DoOpen \/ \E c \in DOMAIN s.conns : DoSend(c) \/ Move(c)
Spec == Init /\ [][Next]_vars
Bound == Len(s.issued) <= MaxPermits

Right == ok
\* the answer names the permit and the broker it was issued for
Answer == \A c \in DOMAIN s.conns : \A j \in DOMAIN s.conns[c].out :
  LET r == s.conns[c].out[j] IN r.p # 0 => <<r.p, r.ctx, s.conns[c].who>> \in Range(s.issued)
OneEach == \A c \in DOMAIN s.conns : Len(s.conns[c].out) <= 1
Count == Cardinality({c \in DOMAIN s.conns : s.conns[c].out # <<>> /\ s.conns[c].out[1].p # 0}) = Len(s.issued)
=============================================================================
