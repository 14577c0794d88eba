-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* Several brokers (BrokerCore) and the channels between them: what their  *)
(* versioned maps of user locations and of interests come to, whatever the *)
(* users do and however messages, rounds and links interleave.             *)
(*                                                                         *)
(* M is a function from broker numbers to brokers. Connection j of broker  *)
(* i is its end of the link to j; what it has sent there and j has not     *)
(* read is the channel. Connection UC(k) is the session of user k.         *)
(***************************************************************************)
EXTENDS BrokerCore

UC(k) == 10 + k
Fresh == [NewConn("d") EXCEPT !.st = "closed"]
New(i) == [NewBroker(i) EXCEPT !.conns = [c \in Brokers \cup {UC(k) : k \in Keys} |-> Fresh]]

Open(s, c) == [s EXCEPT !.conns[c] = NewConn(IF c > 10 THEN "u" ELSE "d")]

Others(M, i) == DOMAIN M \ {i}
Chan(M, i, j) == M[i].conns[j].out

\* One end of a new link; what was under way on an old one is lost
Half(s, j) == NewLink(Open(s, j), j, j)
Down(s, j) == [RemoveLink(s, j) EXCEPT !.conns[j] = Fresh]

RECURSIVE Halves(_, _)
Halves(s, bs) == IF bs = {} THEN s ELSE LET b == CHOOSE b \in bs : TRUE IN Halves(Half(s, b), bs \ {b})
Full(n) == [i \in 1..n |-> Halves(New(i), (1..n) \ {i})]

----------------------------------------------------------------------------
\* What users do
Login(M, i, k, ts) ==
  [M EXCEPT ![i] = PartialUserSync(PartialTopicSync(AddUser(Open(RemoveUser(@, k), UC(k)), k, UC(k), ts)))]
Logout(M, i, k) == [M EXCEPT ![i] = RemoveUser(@, k)]
Subscribe(M, i, k, ts) == [M EXCEPT ![i].subs[k] = @ \cup ts]
Unsubscribe(M, i, k, ts) == [M EXCEPT ![i].subs[k] = @ \ ts]

\* What the network does
Cut(M, i, j) == [M EXCEPT ![i] = Down(@, j), ![j] = Down(@, i)]

\* What brokers do
Call(M, i, j) == [M EXCEPT ![i] = Half(@, j)]
Round(M, i) == [M EXCEPT ![i] = SyncRound(@)]
Take(s, j) == [s EXCEPT !.conns[j].out = Tail(@)]
Apply(s, i, m) == CASE m.t = "usync" -> ApplyUserSync(s, m.from, m.ents)
                    [] m.t = "tsync" -> ApplyTopicSync(s, i, m.ents)
Deliver(M, i, j) == [M EXCEPT ![i] = Take(@, j), ![j] = Apply(@, i, Head(Chan(M, i, j)))]

----------------------------------------------------------------------------
Empty(M) == \A i \in DOMAIN M : \A j \in Others(M, i) : Chan(M, i, j) = <<>>
Linked(M) == \A i \in DOMAIN M : \A j \in Others(M, i) : M[i].links[j] # 0
Idle(M) == \A i \in DOMAIN M : M[i].lm = {} /\ M[i].prev = Interest(M[i])

\* Nothing happens any more unless somebody does something.
Quiet(M) == Empty(M) /\ Linked(M) /\ Idle(M)

At(M, k) == {i \in DOMAIN M : M[i].users[k] # 0}

\* What must hold then:
\* a user has one session (C08),
OneEach(M) == \A k \in Keys : Cardinality(At(M, k)) <= 1
\* every broker sends messages for it there (C06),
Routes(M) == \A k \in Keys : At(M, k) # {} => \A i \in DOMAIN M : M[i].dm[k][2] \in At(M, k)
\* and brokers forward exactly what somebody subscribed to (C02).
Interests(M) == \A i \in DOMAIN M : \A j \in Others(M, i) : M[i].bsubs[j] = Interest(M[j])
=============================================================================
