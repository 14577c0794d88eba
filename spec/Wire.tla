-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The receiving side of connections that share one memory pool            *)
(* (cdn-proto connection/protocols/mod.rs: read_length_delimited and the   *)
(* receiving task; connection/limiter): frames arrive in pieces, a reader  *)
(* takes room for the whole frame before it reads it, the message keeps    *)
(* that room until its last holder lets go, and a frame too large, or not  *)
(* completed in time, ends the connection.                                 *)
(*                                                                         *)
(* Pure operators on a state record, used by WireTrace and WireMC.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANTS Patience     \* time within which a frame that has begun has to be complete

(* A frame on its way: its number, its size, whether all of it has been    *)
(* sent, whether its size field has, and whether that is beyond the limit. *)
Frame(id, size, done) == [id |-> id, size |-> size, done |-> done, hdr |-> TRUE, big |-> FALSE]
Begun(id, size) == [Frame(id, size, FALSE) EXCEPT !.hdr = FALSE]   \* not even all of its size field
Huge == [Frame(0, 0, FALSE) EXCEPT !.big = TRUE]

(* A connection: what is on its way; whether the sender has closed; the    *)
(* reader: "idle", "wait" (for room), "body", "hand" (the queue is full),  *)
(* "dead"; the frame it is at; since when; the queue and its bound         *)
(* (0: none); whether the application has let the connection go.           *)
NewConn(bound) == [stream |-> <<>>, eof |-> FALSE, rd |-> "idle", at |-> 0, q |-> <<>>, bound |-> bound, gone |-> FALSE]

\* cap: size of the pool, 0 if there is none; held: what the application holds, number -> <<size, holders>>
NewWire(cap) == [cap |-> cap, conns |-> <<>>, fifo |-> <<>>, held |-> <<>>, clock |-> 0]

Cur(x) == Head(x.stream)
SumOf(q) == FoldSeq(LAMBDA f, n : f.size + n, 0, q)
ConnShare(x) == SumOf(x.q) + (IF x.rd \in {"body", "hand"} THEN Cur(x).size ELSE 0)
Used(s) == FoldSeq(LAMBDA x, n : ConnShare(x) + n, 0, s.conns) + FoldSeq(LAMBDA h, n : (IF h[3] > 0 THEN h[2] ELSE 0) + n, 0, s.held)
Avail(s) == s.cap - Used(s)
Waiting(s) == {c \in DOMAIN s.conns : s.conns[c].rd = "wait"}

Die(s, c) == [s EXCEPT !.conns[c].rd = "dead", !.conns[c].stream = <<>>, !.fifo = SelectSeq(@, LAMBDA d : d # c)]

----------------------------------------------------------------------------
(* The other side *)
Open(s, bound) == [s EXCEPT !.conns = Append(@, NewConn(bound))]
Send(s, c, f) == IF s.conns[c].rd = "dead" \/ s.conns[c].eof THEN s ELSE [s EXCEPT !.conns[c].stream = Append(@, f)]
OnLast(s, c, f(_)) == IF s.conns[c].stream = <<>> \/ s.conns[c].eof THEN s ELSE [s EXCEPT !.conns[c].stream[Len(s.conns[c].stream)] = f(@)]
More(s, c) == OnLast(s, c, LAMBDA f : [f EXCEPT !.hdr = TRUE, !.done = @ \/ (f.size = 0 /\ ~f.big)])
Rest(s, c) == OnLast(s, c, LAMBDA f : [f EXCEPT !.hdr = TRUE, !.done = TRUE])
Close(s, c) == [s EXCEPT !.conns[c].eof = TRUE]

(* The application *)
CanTake(s, c) == s.conns[c].q # <<>>
Take(s, c) == LET f == Head(s.conns[c].q) IN
  [s EXCEPT !.conns[c].q = Tail(@), !.held = Append(@, <<f.id, f.size, 1>>)]
Hold(s, id, n) == [s EXCEPT !.held = [j \in DOMAIN @ |-> IF @[j][1] = id THEN <<id, @[j][2], @[j][3] + n>> ELSE @[j]]]
LetGo(s, c) == [Die(s, c) EXCEPT !.conns[c].gone = TRUE, !.conns[c].q = <<>>]

(* Time passes, until t at most: whoever has been at a frame for too long  *)
(* is given up, one moment after the other.                                *)
Due(s) == {s.conns[c].at + Patience : c \in {d \in DOMAIN s.conns : s.conns[d].rd = "body"}}
Sooner(s, t) == {d \in Due(s) : d <= t}
Pass(s, t) ==
  LET u == IF Sooner(s, t) = {} THEN t ELSE Min(Sooner(s, t)) IN
  [s EXCEPT !.clock = u,
            !.conns = [c \in DOMAIN @ |-> IF @[c].rd = "body" /\ u - @[c].at >= Patience
                                          THEN [@[c] EXCEPT !.rd = "dead", !.stream = <<>>] ELSE @[c]]]

----------------------------------------------------------------------------
(* The reader of connection c *)

\* the size of the next frame is known
CanSee(x) == x.rd = "idle" /\ x.stream # <<>> /\ Cur(x).hdr
TooBig(s, f) == f.big \/ (s.cap > 0 /\ f.size > s.cap)
See(s, c) ==
  LET x == s.conns[c] IN
  IF TooBig(s, Cur(x)) THEN Die(s, c)
  ELSE IF s.cap = 0 THEN [s EXCEPT !.conns[c].rd = "body", !.conns[c].at = s.clock]
  ELSE [s EXCEPT !.conns[c].rd = "wait", !.fifo = Append(@, c)]

\* room for it
CanEnter(s, c) == s.conns[c].rd = "wait" /\ Cur(s.conns[c]).size <= Avail(s)
Enter(s, c) == [s EXCEPT !.conns[c].rd = "body", !.conns[c].at = s.clock, !.fifo = SelectSeq(@, LAMBDA d : d # c)]

\* all of it is there
CanFinish(x) == x.rd = "body" /\ Cur(x).done
Room(x) == x.bound = 0 \/ Len(x.q) < x.bound
Finish(s, c) ==
  IF Room(s.conns[c])
  THEN [s EXCEPT !.conns[c].rd = "idle", !.conns[c].q = Append(@, Cur(s.conns[c])), !.conns[c].stream = Tail(@)]
  ELSE [s EXCEPT !.conns[c].rd = "hand"]
CanHand(x) == x.rd = "hand" /\ Room(x)
Hand(s, c) == [s EXCEPT !.conns[c].rd = "idle", !.conns[c].q = Append(@, Cur(s.conns[c])), !.conns[c].stream = Tail(@)]

\* the sender is gone and has left no complete frame
CanEnd(x) == x.eof /\ CASE x.rd = "idle" -> (IF x.stream = <<>> THEN TRUE ELSE ~Cur(x).hdr)
                        [] x.rd = "body" -> ~Cur(x).done
                        [] OTHER -> FALSE
End(s, c) == Die(s, c)

\* nobody whose turn it is can go on
Still(s) ==
  /\ \A c \in DOMAIN s.conns : LET x == s.conns[c] IN ~CanSee(x) /\ ~CanFinish(x) /\ ~CanHand(x) /\ ~CanEnd(x)
  /\ s.fifo # <<>> => ~CanEnter(s, Head(s.fifo))

----------------------------------------------------------------------------
WithinPool(s) == s.cap > 0 => Used(s) <= s.cap
FifoOk(s) == Range(s.fifo) = Waiting(s) /\ Len(s.fifo) = Cardinality(Waiting(s))
=============================================================================
