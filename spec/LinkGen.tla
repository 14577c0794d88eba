------------------------------ MODULE LinkGen ------------------------------
(***************************************************************************)
(* Every input of a bounded Link in every state it comes to rest in; as a  *)
(* model (invariants) and as scripts for the real code.                    *)
(***************************************************************************)
EXTENDS Link, Json, IOUtils, Integers
CONSTANTS PipeRoom, Bound, MaxSent, MaxSoft, Sizes, MaxClock, Reads
VARIABLES s, total, asked, hist
vars == <<s, total, asked, hist>>

RECURSIVE Settle(_)
Settle(x) == IF CanPick(x) THEN Settle(Pick(x)) ELSE IF CanWrite(x) THEN Settle(Write(x))
             ELSE IF CanQueueSoft(x) THEN Settle(QueueSoft(x, Head(x.asked))) ELSE x
RECURSIVE Suck(_, _)
Suck(x, n) == IF n = 0 \/ x.pipe = 0 THEN <<Settle(x), n>>
              ELSE LET k == Min2(x.pipe, n) IN Suck(Settle([x EXCEPT !.pipe = @ - k]), n - k)

Init == s = NewLink(PipeRoom, Bound) /\ total = 0 /\ asked = <<>> /\ hist = <<[op |-> "init", room |-> PipeRoom, bound |-> Bound]>>
Q == [op |-> "q"]
Do(x, o) == s' = Settle(x) /\ hist' = hist \o <<o, Q>> /\ total' = total
Next ==
  \/ /\ Len(s.sent) < MaxSent /\ asked' = asked
     /\ \E z \in Sizes : Do(DoSend(s, Len(s.sent) + 1, z), [op |-> "send", id |-> (IF z = 0 THEN 0 ELSE Len(s.sent) + 1), size |-> z])
  \/ /\ Len(s.softs) < MaxSoft /\ s.wr # "done" /\ asked' = Append(asked, Len(s.sent)) /\ Do(AskSoft(s), [op |-> "soft"])
  \/ s.wr # "done" /\ asked' = asked /\ Do(LetGo(s), [op |-> "drop"])
  \/ ~s.away /\ asked' = asked /\ Do(Away(s), [op |-> "away"])
  \/ s.clock < MaxClock /\ asked' = asked /\ \E t \in {2, 6} : Do(Advance(s, t), [op |-> "adv", s |-> t])
  \/ /\ ~s.away /\ asked' = asked
     /\ \E n \in Reads : LET r == Suck(s, n) IN
          s' = r[1] /\ total' = total + n - r[2] /\ hist' = hist \o <<[op |-> "read", n |-> n], Q>>
Gen == "GEN" \in DOMAIN IOEnv => PrintT("SCRIPT " \o ToJson(hist'))
Spec == Init /\ [][Next /\ Gen]_vars
Hide == <<s, total, asked>>

Written == total + s.pipe
\* a soft close is answered "ok" only when everything sent before it has been written
Flushed == s.away \/ \A k \in DOMAIN s.softs : s.softs[k] = "ok" => Written >= Total(SubSeq(s.sent, 1, asked[k]))
\* and it is answered as soon as that is so, or cannot be any more
Answered == s.wr \in {"dead", "done", "idle"} => \A k \in DOMAIN s.softs : s.softs[k] # "wait"
Inv == s.pipe <= s.room /\ Still(s) /\ Flushed /\ Answered /\ (Alive(s) /\ ~s.away => Written <= Total(s.sent))
=============================================================================
