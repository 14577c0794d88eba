------------------------------ MODULE WireGen ------------------------------
(***************************************************************************)
(* Scripts for the real code: every input of the bounded model in every    *)
(* state the system comes to rest in.                                      *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils
CONSTANTS Cap, NConns, MaxFrames, Sizes, Bound, MaxClock
VARIABLES s, n, hist

RECURSIVE Settle(_)
Settle(x) ==
  LET go == {c \in DOMAIN x.conns : CanSee(x.conns[c]) \/ CanFinish(x.conns[c]) \/ CanHand(x.conns[c]) \/ CanEnd(x.conns[c])} IN
  IF go # {}
  THEN LET c == Min(go) y == x.conns[c] IN
       Settle(IF CanSee(y) THEN See(x, c) ELSE IF CanFinish(y) THEN Finish(x, c)
              ELSE IF CanHand(y) THEN Hand(x, c) ELSE End(x, c))
  ELSE IF x.fifo # <<>> /\ CanEnter(x, Head(x.fifo)) THEN Settle(Enter(x, Head(x.fifo))) ELSE x
RECURSIVE TakeAll(_, _)
TakeAll(x, c) == IF CanTake(x, c) THEN TakeAll(Settle(Take(x, c)), c) ELSE x

RECURSIVE Wait(_, _)
Wait(x, t) == LET y == Settle(Pass(x, t)) IN IF y.clock = t /\ t \notin Due(y) THEN y ELSE Wait(y, t)

C == 1..NConns
Init == n = 0 /\ s = [NewWire(Cap) EXCEPT !.conns = [c \in C |-> NewConn(Bound)]]
        /\ hist = [c \in C |-> [op |-> "open", c |-> c, bound |-> Bound]]
Whole(x) == IF x.stream = <<>> THEN TRUE ELSE x.stream[Len(x.stream)].done
Unread(x) == IF x.stream = <<>> THEN FALSE ELSE ~x.stream[Len(x.stream)].hdr
Q == [op |-> "q", drain |-> <<>>]
Do(x, o) == s' = Settle(x) /\ hist' = hist \o <<o, Q>>
Live(c) == ~s.conns[c].eof /\ s.conns[c].rd # "dead"

Next ==
  \/ \E c \in C :
     \/ /\ n < MaxFrames /\ Live(c) /\ Whole(s.conns[c]) /\ n' = n + 1
        /\ \/ \E z \in Sizes :
              \/ Do(Send(s, c, Frame(n + 1, z, TRUE)), [op |-> "frame", c |-> c, id |-> n + 1, size |-> z])
              \/ Do(Send(s, c, Frame(n + 1, z, FALSE)), [op |-> "part", c |-> c, id |-> n + 1, size |-> z, n |-> 0])
              \/ Do(Send(s, c, Begun(n + 1, z)), [op |-> "head", c |-> c, id |-> n + 1, size |-> z, n |-> 2])
           \/ Do(Send(s, c, Huge), [op |-> "big", c |-> c, size |-> 1])
     \/ n' = n /\ Live(c) /\ ~Whole(s.conns[c]) /\ Do(Rest(s, c), [op |-> "rest", c |-> c])
     \/ n' = n /\ Live(c) /\ Unread(s.conns[c]) /\ Do(More(s, c), [op |-> "more", c |-> c, n |-> 0])
     \/ n' = n /\ ~s.conns[c].eof /\ Do(Close(s, c), [op |-> "close", c |-> c])
     \/ n' = n /\ ~s.conns[c].gone /\ Do(LetGo(s, c), [op |-> "letgo", c |-> c])
     \/ n' = n /\ CanTake(s, c) /\ s' = TakeAll(s, c) /\ hist' = Append(hist, [op |-> "q", drain |-> <<c>>])
  \/ n' = n /\ \E j \in DOMAIN s.held : s.held[j][3] > 0 /\ s.held[j][1] > 0
                   /\ Do(Hold(s, s.held[j][1], -1), [op |-> "hold", id |-> s.held[j][1], n |-> -1])
  \/ n' = n /\ s.clock < MaxClock /\ \E t \in {24, 60} : s' = Wait(s, s.clock + t) /\ hist' = hist \o <<[op |-> "adv", s |-> t], Q>>
Gen == "GEN" \in DOMAIN IOEnv => PrintT("SCRIPT " \o ToJson(hist'))
Spec == Init /\ [][Next /\ Gen]_<<s, n, hist>>
Hide == <<s, n>>
Inv == WithinPool(s) /\ FifoOk(s) /\ Still(s)
=============================================================================
