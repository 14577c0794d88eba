------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The client: calls from any number of tasks over one elastic session     *)
(* (cdn-client/src/lib.rs, cdn-proto connection/auth/user.rs). A call that *)
(* finds no session fails and has a reconnection started in the            *)
(* background, of which there is at most one; attempts follow one another  *)
(* until one succeeds; the new session begins with the topics held.        *)
(*                                                                         *)
(* Pure operators on a state record, used by ClientTrace and ClientMC.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

(* closed: the client was closed by its user                               *)
(* subs:   topics whose subscription the caller was told had succeeded     *)
(* cur:    the session in use, or 0; pend: a reconnection is under way     *)
(* att:    attempts [start, end (-1: under way), ph: how far it got]       *)
(* free:   when the next attempt could start                               *)
(* calls:  [k, ts, id, st, j, r, rid, parked]                              *)
(* ses:    [topics it began with, peer: 0 up, 1 gone, 2 gone and noticed,  *)
(*          wrote: since it is gone, left: given up by the client,         *)
(*          inbox: on the way to the client, out: what the broker got]     *)
NewClient(subs) == [closed |-> FALSE, subs |-> subs, cur |-> 0, pend |-> FALSE, att |-> <<>>, free |-> 0,
                    calls |-> <<>>, ses |-> <<>>]

NewCall(k, ts, id) == [k |-> k, ts |-> ts, id |-> id, st |-> "new", j |-> 0, r |-> "p", rid |-> 0, parked |-> FALSE]
Invoke(c, k, ts, id) == [c EXCEPT !.calls = Append(@, NewCall(k, ts, id))]

Ret(c, n, r, id) == [c EXCEPT !.calls[n].st = "done", !.calls[n].r = r, !.calls[n].rid = id]
Err(c, n) == Ret(c, n, "err", 0)
Want(c, now) == IF c.closed \/ c.pend THEN c ELSE [c EXCEPT !.pend = TRUE, !.free = now]
\* only the session the call used is given up, never a newer one
Lose(c, j) == IF c.cur = j THEN [c EXCEPT !.cur = 0, !.ses[j].left = TRUE] ELSE c

Busy(c) == \E a \in DOMAIN c.att : c.att[a].end = -1
Open(c) == CHOOSE a \in DOMAIN c.att : c.att[a].end = -1
EndTry(c, t) == IF Busy(c) THEN [c EXCEPT !.att[Open(c)].end = t, !.free = t] ELSE c
StartTry(c, t) == [c EXCEPT !.att = Append(@, [start |-> t, end |-> -1, ph |-> "m"])]
Established(c, t) ==
  LET d == [EndTry(c, t) EXCEPT !.att[Len(c.att)].ph = "s"] IN
  [d EXCEPT !.pend = FALSE, !.cur = Len(c.ses) + 1,
            !.ses = Append(@, [topics |-> c.subs, peer |-> 0, wrote |-> FALSE, left |-> FALSE, inbox |-> <<>>, out |-> <<>>])]

(* Calls that use the session without waiting for one                      *)
Ready(c) == ~c.pend /\ c.cur # 0
Fresh(c, ts) == {t \in ts : t \notin c.subs}
Held(c, ts) == {t \in ts : t \in c.subs}
Wire(c, n) ==
  LET x == c.calls[n] IN
  CASE x.k = "send" -> <<[t |-> "msg", id |-> x.id, topics |-> {}]>>
    [] x.k = "sub" -> IF Fresh(c, x.ts) = {} THEN <<>> ELSE <<[t |-> "sub", id |-> 0, topics |-> Fresh(c, x.ts)]>>
    [] x.k = "unsub" -> IF Held(c, x.ts) = {} THEN <<>> ELSE <<[t |-> "unsub", id |-> 0, topics |-> Held(c, x.ts)]>>
    [] OTHER -> <<>>
Acknowledge(c, n) ==
  LET x == c.calls[n] IN
  CASE x.k = "sub" -> [c EXCEPT !.subs = @ \cup x.ts]
    [] x.k = "unsub" -> [c EXCEPT !.subs = @ \ x.ts]
    [] OTHER -> c
\* may the session take it / fail it?
Uses(c, n) == c.calls[n].k = "flush" \/ Wire(c, n) # <<>>
CanTake(c, n) == Uses(c, n) => c.ses[c.cur].peer < 2
\* one that uses the session of call n may fail once that is lost
CanFail(c, n) == LET s == c.ses[c.calls[n].j] IN s.peer > 0 \/ s.left
Take(c, n) ==
  LET j == c.cur
      w == Wire(c, n)
      d == IF c.ses[j].peer = 0 THEN [c EXCEPT !.ses[j].out = @ \o w]
           ELSE [c EXCEPT !.ses[j].wrote = @ \/ w # <<>>] IN
  Ret(Acknowledge(d, n), n, "ok", 0)
Fail(c, n) == Err(Lose(c, c.calls[n].j), n)
NoSession(c, n, now) == Err(Want(c, now), n)

(* Receiving waits for the reconnection, then for a message                *)
RecvStart(c, n, now) ==
  IF c.pend THEN [c EXCEPT !.calls[n].st = "lock"]
  ELSE IF c.cur = 0 THEN NoSession(c, n, now)
  ELSE [c EXCEPT !.calls[n].st = "on", !.calls[n].j = c.cur]
CanGet(c, n) == c.ses[c.calls[n].j].inbox # <<>>
Get(c, n) ==
  LET j == c.calls[n].j
      m == Head(c.ses[j].inbox)
      d == [c EXCEPT !.ses[j].inbox = Tail(@)] IN
  IF m = -1 THEN Err(Lose(d, j), n) ELSE Ret(d, n, "msg", m)
CanBreak(c, n) == LET s == c.ses[c.calls[n].j] IN s.left \/ (s.peer > 0 /\ s.inbox = <<>>)
Break(c, n) == Err(Lose(c, c.calls[n].j), n)

(* Waiting for the session                                                 *)
InitStart(c, n, now) ==
  IF c.closed THEN Err(c, n)
  ELSE IF Ready(c) THEN Ret(c, n, "ok", 0)
  ELSE [Want(c, now) EXCEPT !.calls[n].st = "guard"]
InitEnd(c, n) == IF c.closed THEN Err(c, n) ELSE Ret(c, n, "ok", 0)

(* Closing ends everything                                                 *)
Close(c, n, now) ==
  LET d == [EndTry(c, now) EXCEPT !.closed = TRUE, !.pend = FALSE] IN
  Ret(IF d.cur = 0 THEN d ELSE Lose(d, d.cur), n, "ok", 0)

Cancel(c, n) == IF c.calls[n].st = "done" THEN c ELSE [c EXCEPT !.calls[n].st = "done", !.calls[n].r = "cancelled"]
=============================================================================
