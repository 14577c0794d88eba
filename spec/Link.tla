-------------------------------- MODULE Link --------------------------------
(***************************************************************************)
(* The writing side of a connection (cdn-proto connection/protocols/mod.rs:*)
(* the sending task, write_length_delimited, soft_close) over a byte       *)
(* stream with room for a number of bytes: messages are queued, written    *)
(* one after the other as size and body, each of the two within a time; a  *)
(* soft close is answered when its turn comes.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Patience, SizeField

(* q: what is queued, messages <<id, size>> and soft closes <<0, -number>>;*)
(* wr: the writer, "idle", "size", "body", "dead", "done" (the connection  *)
(* was let go); cur: what it is at; togo: bytes of this phase unwritten;   *)
(* at: when the phase began; pipe: bytes written and not read;             *)
(* out: messages wholly or partly written, with how many bytes; softs:     *)
(* what each soft close has been told; asked: those not queued yet.        *)
NewLink(room, bound) ==
  [room |-> room, bound |-> bound, q |-> <<>>, wr |-> "idle", cur |-> <<>>, togo |-> 0, at |-> 0, pipe |-> 0,
   sent |-> <<>>, softs |-> <<>>, asked |-> <<>>, clock |-> 0, away |-> FALSE]

Msg(id, size) == [k |-> "msg", id |-> id, size |-> size]
Soft(n) == [k |-> "soft", id |-> n, size |-> 0]
Roomy(s) == s.bound = 0 \/ Len(s.q) < s.bound
Alive(s) == s.wr \notin {"dead", "done"}

\* what a caller is told when it sends
SendResult(s) == CASE s.wr = "done" -> "gone" [] s.wr = "dead" -> "err" [] Roomy(s) -> "ok" [] OTHER -> "full"
DoSend(s, id, size) == IF SendResult(s) = "ok" THEN [s EXCEPT !.q = Append(@, Msg(id, size)), !.sent = Append(@, <<id, size>>)] ELSE s

AskSoft(s) ==
  CASE s.wr = "done" -> s
    [] s.wr = "dead" -> [s EXCEPT !.softs = Append(@, "err")]
    [] OTHER -> [s EXCEPT !.softs = Append(@, "wait"), !.asked = Append(@, Len(s.softs) + 1)]
CanQueueSoft(s) == s.asked # <<>> /\ Roomy(s)
QueueSoft(s, k) == [s EXCEPT !.asked = SelectSeq(@, LAMBDA j : j # k), !.q = Append(@, Soft(k))]

Waiting(s) == {k \in DOMAIN s.softs : s.softs[k] = "wait"}
Tell(s, w) == [k \in DOMAIN s.softs |-> IF s.softs[k] = "wait" THEN w ELSE s.softs[k]]
\* the stream fails: everybody who waits is told
Fail(s) == [s EXCEPT !.wr = "dead", !.q = <<>>, !.asked = <<>>, !.softs = Tell(s, "err")]
\* the connection is let go (and with it whoever waited in it)
LetGo(s) == IF s.wr = "done" THEN s ELSE [s EXCEPT !.wr = "done", !.q = <<>>, !.asked = <<>>, !.softs = Tell(s, "none")]

Min2(a, b) == IF a < b THEN a ELSE b
\* the writer
CanPick(s) == s.wr = "idle" /\ s.q # <<>>
Pick(s) == LET m == Head(s.q) IN
  IF m.k = "soft" THEN [s EXCEPT !.q = Tail(@), !.softs[m.id] = "ok"]
  ELSE [s EXCEPT !.q = Tail(@), !.wr = "size", !.cur = <<m.id, m.size>>, !.togo = SizeField, !.at = s.clock]
CanWrite(s) == s.wr \in {"size", "body"} /\ (s.togo = 0 \/ s.away \/ s.pipe < s.room)
Write(s) ==
  IF s.togo = 0
  THEN IF s.wr = "size" THEN [s EXCEPT !.wr = "body", !.togo = s.cur[2], !.at = s.clock] ELSE [s EXCEPT !.wr = "idle"]
  ELSE IF s.away THEN Fail(s)
  ELSE LET n == Min2(s.togo, s.room - s.pipe) IN [s EXCEPT !.togo = @ - n, !.pipe = @ + n]

Advance(s, n) ==
  LET t == s.clock + n
      x == [s EXCEPT !.clock = t]
  IN IF s.wr \in {"size", "body"} /\ t - s.at >= Patience THEN Fail(x) ELSE x
Away(s) == [s EXCEPT !.away = TRUE]

Still(s) == ~CanPick(s) /\ ~CanWrite(s) /\ ~CanQueueSoft(s)
\* everything asked for before a soft close that was told "ok" has been written
Total(q) == FoldSeq(LAMBDA m, n : SizeField + m[2] + n, 0, q)
=============================================================================
