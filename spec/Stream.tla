------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* What both ends of a connection may rely on, whatever the transport      *)
(* (cdn-proto connection/protocols: tcp, tcp_tls, quic, memory): each      *)
(* direction delivers the messages sent, in order, and nothing else, until *)
(* a side lets go; everything sent before a soft close arrives even then.  *)
(* Any number of connections may share one memory pool.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

\* one direction: what was sent, how much of it has arrived, whether the receiver saw the end,
\* whether the sender has let go, how much was sent before its last answered soft close
Dir == [sent |-> <<>>, arrived |-> 0, err |-> FALSE, gone |-> FALSE, flushed |-> 0, closed |-> FALSE]
NewStream(n) == [k \in 1..(2 * n) |-> Dir]
\* directions 2c-1 and 2c belong to connection c
Other(d) == IF d % 2 = 1 THEN d + 1 ELSE d - 1

Send(s, d, id, size) == [s EXCEPT ![d].sent = Append(@, <<id, size>>)]
SoftClosed(s, d) == [s EXCEPT ![d].flushed = Len(s[d].sent), ![d].closed = TRUE]
LetGo(s, d) == [s EXCEPT ![d].gone = TRUE]
\* the next message arrives
CanArrive(s, d) == ~s[d].err /\ ~s[Other(d)].gone /\ s[d].arrived < Len(s[d].sent)
Arrive(s, d) == [s EXCEPT ![d].arrived = @ + 1]
\* the receiver sees the end only when the sender is gone (or has closed its side), and not before what was flushed; if
\* there were unread messages in the other direction, a transport may lose what was on its way
Clean(s, d) == s[Other(d)].arrived = Len(s[Other(d)].sent)
CanEnd(s, d) == /\ ~s[d].err /\ (s[d].gone \/ s[d].closed)
                /\ Clean(s, d) => s[d].arrived >= s[d].flushed
End(s, d) == [s EXCEPT ![d].err = TRUE]
\* nothing is left to wait for: all has arrived, or the end
Settled(s, d) == s[Other(d)].gone \/ s[d].err \/ (~s[d].gone /\ s[d].arrived = Len(s[d].sent))
=============================================================================
