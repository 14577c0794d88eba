------------------------------ MODULE ClientMC ------------------------------
(***************************************************************************)
(* The client against any marshal, broker and callers. The attempts take   *)
(* no time here; what matters is who gets in between. heard[j]: what the   *)
(* broker of session j believes the topics are (ghost).                    *)
(***************************************************************************)
EXTENDS Client

CONSTANTS MaxCalls, MaxSessions, Topics, Kinds

VARIABLES c, heard, attempts
vars == <<c, heard, attempts>>

Init == c = NewClient({1}) /\ heard = <<>> /\ attempts = 0

Pending(n) == c.calls[n].st # "done"
Live(j) == c.ses[j].peer = 0 /\ ~c.ses[j].left
Hear(h, t) == CASE t.t = "sub" -> h \cup t.topics [] t.t = "unsub" -> h \ t.topics [] OTHER -> h
Invoked == /\ Len(c.calls) < MaxCalls
           /\ \E k \in Kinds : \E ts \in IF k \in {"sub", "unsub"} THEN SUBSET Topics ELSE {{}} : c' = Invoke(c, k, ts, Len(c.calls) + 1)
           /\ UNCHANGED <<heard, attempts>>
Greeting == Busy(c) /\ c.att[Open(c)].ph = "b"
Move(n) ==
  LET x == c.calls[n] IN
  /\ Pending(n) /\ UNCHANGED attempts
  /\ CASE x.st = "new" /\ x.k \in {"send", "sub", "unsub", "flush"} ->
            /\ ~(x.k \in {"sub", "unsub"} /\ Greeting)
            /\ IF ~Ready(c) THEN c' = NoSession(c, n, 0) /\ UNCHANGED heard
               ELSE \/ /\ CanTake(c, n) /\ c' = Take(c, n)
                       /\ heard' = IF c.ses[c.cur].peer = 0 THEN [heard EXCEPT ![c.cur] = FoldSeq(LAMBDA t, h : Hear(h, t), @, Wire(c, n))] ELSE heard
                    \/ c.ses[c.cur].peer > 0 /\ Uses(c, n) /\ c' = [c EXCEPT !.calls[n].st = "use", !.calls[n].j = c.cur] /\ UNCHANGED heard
       [] x.st = "use" -> CanFail(c, n) /\ c' = Fail(c, n) /\ UNCHANGED heard
       [] x.st = "new" /\ x.k = "recv" -> c' = RecvStart(c, n, 0) /\ UNCHANGED heard
       [] x.st = "new" /\ x.k = "init" -> c' = InitStart(c, n, 0) /\ UNCHANGED heard
       [] x.st = "new" /\ x.k = "close" -> c' = Close(c, n, 0) /\ UNCHANGED heard
       [] x.st = "lock" -> ~c.pend /\ c' = RecvStart(c, n, 0) /\ UNCHANGED heard
       [] x.st = "guard" -> ~c.pend /\ c' = InitEnd(c, n) /\ UNCHANGED heard
       [] x.st = "on" -> ((CanGet(c, n) /\ c' = Get(c, n)) \/ (CanBreak(c, n) /\ c' = Break(c, n))) /\ UNCHANGED heard

\* an attempt: with the marshal, then with the broker, then it fails or succeeds
TryStart == c.pend /\ ~Busy(c) /\ c' = [StartTry(c, 0) EXCEPT !.att = SubSeq(@, Len(@), Len(@))]
            /\ attempts' = 1 /\ UNCHANGED heard
TryBroker == Busy(c) /\ c.att[Open(c)].ph = "m" /\ c' = [c EXCEPT !.att[Open(c)].ph = "b"] /\ UNCHANGED <<heard, attempts>>
TryFail == Busy(c) /\ c' = EndTry(c, 0) /\ attempts' = 0 /\ UNCHANGED heard
TryDone == Busy(c) /\ Greeting /\ Len(c.ses) < MaxSessions /\ c' = Established(c, 0)
           /\ heard' = Append(heard, c.subs) /\ attempts' = 0
Peer(j) == /\ c.ses[j].peer = 0 /\ UNCHANGED <<heard, attempts>>
           /\ \/ c' = [c EXCEPT !.ses[j].peer = 1]
              \/ Len(c.ses[j].inbox) < 1 /\ \E v \in {-1, 7} : c' = [c EXCEPT !.ses[j].inbox = Append(@, v)]
Notice(j) == c.ses[j].peer = 1 /\ c' = [c EXCEPT !.ses[j].peer = 2] /\ UNCHANGED <<heard, attempts>>
Drop(n) == Pending(n) /\ c' = Cancel(c, n) /\ UNCHANGED <<heard, attempts>>

Moves == \E n \in DOMAIN c.calls : Move(n)
Tries == TryStart \/ TryBroker \/ TryDone
Next == Invoked \/ Moves \/ Tries \/ TryFail \/ (\E j \in DOMAIN c.ses : Peer(j) \/ Notice(j)) \/ \E n \in DOMAIN c.calls : Drop(n)
\* the marshal and brokers answer again and again, and eventually rightly
Fair == WF_vars(TryStart) /\ SF_vars(TryBroker) /\ SF_vars(TryDone)
        /\ \A n \in 1..MaxCalls : WF_vars(IF n \in DOMAIN c.calls THEN Move(n) ELSE FALSE)
        /\ WF_vars(\E j \in DOMAIN c.ses : Notice(j))
Spec == Init /\ [][Next]_vars /\ Fair

\* at most one session is in use, every other one was given up
One == \A j \in DOMAIN c.ses : j # c.cur => c.ses[j].left
\* the broker of the session in use knows the topics exactly
Agree == c.cur # 0 /\ c.ses[c.cur].peer = 0 => heard[c.cur] = c.subs
Closed == c.closed => c.cur = 0 /\ ~c.pend /\ ~Busy(c)
Exclusive == Busy(c) => c.pend /\ c.cur = 0
AtMostOneTry == Cardinality({a \in DOMAIN c.att : c.att[a].end = -1}) <= 1
\* a call that begins after the client is closed fails
AfterClose == [][\A n \in DOMAIN c.calls : c.closed /\ c.calls[n].st = "new" /\ c.calls[n].k # "close" /\ n \in DOMAIN c'.calls
                   /\ c'.calls[n].st # "new" => c'.calls[n].r \in {"err", "cancelled"}]_vars
\* nobody who does not wait for a message waits for ever (receivers do, while there is a session and no message)
Ends == \A n \in 1..MaxCalls : (n \in DOMAIN c.calls) ~> (IF n \in DOMAIN c.calls THEN c.calls[n].st \in {"done", "on"} \/ Len(c.ses) = MaxSessions ELSE FALSE)
Restored == c.pend ~> (c.cur # 0 \/ c.closed \/ Len(c.ses) = MaxSessions)
=============================================================================
