------------------------------- MODULE WireMC -------------------------------
(***************************************************************************)
(* Connections sharing a pool: every arrival of frames in pieces, every    *)
(* order of readers, holders and deaths.                                   *)
(***************************************************************************)
EXTENDS Wire
CONSTANTS Cap, NConns, MaxFrames, Sizes, Bound
VARIABLES s, n
vars == <<s, n>>

Init == /\ n = 0
        /\ s = [NewWire(Cap) EXCEPT !.conns = [c \in 1..NConns |-> NewConn(Bound)]]
Final(x) == x.stream[Len(x.stream)]
Whole(x) == IF x.stream = <<>> THEN TRUE ELSE Final(x).done

DoSend(c) == /\ n < MaxFrames /\ ~s.conns[c].eof /\ Whole(s.conns[c]) /\ s.conns[c].rd # "dead"
             /\ n' = n + 1
             /\ \E z \in Sizes : \E f \in {Frame(n + 1, z, TRUE), Frame(n + 1, z, FALSE), Begun(n + 1, z)} :
                  s' = Send(s, c, f)
DoRest(c) == /\ ~Whole(s.conns[c]) /\ ~s.conns[c].eof /\ s' = Rest(s, c) /\ n' = n
DoMore(c) == ~Whole(s.conns[c]) /\ ~s.conns[c].eof /\ ~Final(s.conns[c]).hdr /\ s' = More(s, c) /\ n' = n
DoClose(c) == ~s.conns[c].eof /\ s' = Close(s, c) /\ n' = n
DoTake(c) == CanTake(s, c) /\ s' = Take(s, c) /\ n' = n
DoDrop == \E j \in DOMAIN s.held : s.held[j][3] > 0 /\ s' = Hold(s, s.held[j][1], -1) /\ n' = n
DoGo(c) == ~s.conns[c].gone /\ s' = LetGo(s, c) /\ n' = n
DoAdv == s.clock < Patience /\ s' = Pass(s, Patience) /\ n' = n
Move(c) ==
  /\ n' = n
  /\ LET x == s.conns[c] IN
     \/ CanSee(x) /\ s' = See(s, c)
     \/ CanEnter(s, c) /\ s' = Enter(s, c)
     \/ CanFinish(x) /\ s' = Finish(s, c)
     \/ CanHand(x) /\ s' = Hand(s, c)
     \/ CanEnd(x) /\ s' = End(s, c)
C == 1..NConns
Next == DoDrop \/ DoAdv \/ \E c \in C : DoSend(c) \/ DoMore(c) \/ DoRest(c) \/ DoClose(c) \/ DoTake(c) \/ DoGo(c) \/ Move(c)
Fair == /\ \A c \in C : WF_vars(Move(c)) /\ WF_vars(DoTake(c)) /\ WF_vars(DoRest(c))
        /\ \A c \in C : SF_vars(CanEnter(s, c) /\ n' = n /\ s' = Enter(s, c))
        /\ WF_vars(DoDrop)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair

Pool == WithinPool(s) /\ FifoOk(s)
\* when nothing is under way any more, all of the pool is back
Returned == (\A c \in C : s.conns[c].rd \in {"idle", "dead"} /\ s.conns[c].q = <<>>)
            /\ (\A j \in DOMAIN s.held : s.held[j][3] = 0) => Avail(s) = Cap
\* in the order sent, nothing twice
Ordered == \A c \in C : \A a, b \in DOMAIN s.conns[c].q : a < b => s.conns[c].q[a].id < s.conns[c].q[b].id
NoTwice == \A a, b \in DOMAIN s.held : a # b => s.held[a][1] # s.held[b][1]
\* as long as senders finish what they begin and holders let go, whoever waits for room gets it
NoStarving == \A c \in C : (s.conns[c].rd = "wait") ~> (s.conns[c].rd # "wait")
=============================================================================
