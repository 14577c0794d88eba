----------------------------- MODULE BrokerTrace -----------------------------
(***************************************************************************)
(* Are these recorded executions of one real broker behaviours of          *)
(* BrokerCore? The trace has what the environment did (open, send, drop,   *)
(* tick, ...) and, after each burst, a "q" event with all that was         *)
(* observed until the broker was at rest. Between two "q"s the broker may  *)
(* take the queued messages of different connections in any order; TLC     *)
(* finds an order that explains the observations, or there is none.        *)
(* FOCUS (environment) selects the observations compared.                  *)
(***************************************************************************)
EXTENDS BrokerCore, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
Focus == Range(JsonDeserialize(IOEnv.FOCUS))
Debug == "DEBUG" \in DOMAIN IOEnv /\ IOEnv.DEBUG = "1"
Self == 3

VARIABLES tid, i, s, permits, wl, known, tasks, fresh, clk, svc
vars == <<tid, i, s, permits, wl, known, tasks, fresh, clk, svc>>

Ev == Traces[tid].ev
E == Ev[i]
More == i <= Len(Ev)
At(op) == More /\ E.op = op
Step == i' = i + 1 /\ tid' = tid
Quiet(c) == s.conns[c].inq = <<>> \/ s.conns[c].st = "wait"

Init ==
  /\ tid \in DOMAIN Traces
  /\ i = 2
  /\ s = NewBroker(Self)
  /\ permits = Range(Ev[1].permits)
  /\ wl = [ks |-> {}, on |-> FALSE]
  /\ known = [bs |-> {}, up |-> {}]
  /\ tasks = {}
  \* when the periodic tasks are due, and what the heartbeat task does next: register, or ask for the others
  /\ clk = [now |-> 1000, sync |-> 10000, wl |-> 60000, hb |-> 10000, ph |-> "beat", lists |-> 0]
  /\ svc = [permit |-> "ok", hb |-> "ok", list |-> "ok"]
  /\ fresh = {}          \* connections we were called on and have not been shown yet: <<broker, conn>>

----------------------------------------------------------------------------
(* Inputs *)

Open ==
  /\ At("open") /\ Step
  /\ s' = [s EXCEPT !.conns = Append(@, [NewConn(E.kind) EXCEPT !.at = E.now])]
  /\ UNCHANGED <<permits, wl, known, tasks, fresh, clk, svc>>

Send ==
  /\ At("send") /\ Step
  /\ s' = IF s.conns[E.c].st = "closed" THEN s ELSE [s EXCEPT !.conns[E.c].inq = Append(@, E.m)]
  /\ UNCHANGED <<permits, wl, known, tasks, fresh, clk, svc>>

Drop ==
  /\ At("drop") /\ Step
  /\ s' = LET d == [s EXCEPT !.conns[E.c].cut = TRUE] IN
          IF s.conns[E.c].st = "closed" THEN d ELSE [d EXCEPT !.conns[E.c].inq = Append(@, [t |-> "eof"])]
  /\ UNCHANGED <<permits, wl, known, tasks, fresh, clk, svc>>

SetBrokers ==
  /\ At("brokers") /\ Step
  /\ known' = [bs |-> Range(E.bs), up |-> Range(E.listen)]
  /\ UNCHANGED <<s, permits, wl, tasks, fresh, clk, svc>>

SetWhitelist ==
  /\ At("wl") /\ Step
  \* where asking fails, the user may stay
  /\ wl' = [ks |-> Range(E.ks) \cup Range(E.failk), on |-> ~E.fail]
  /\ UNCHANGED <<s, permits, known, tasks, fresh, clk, svc>>

SetServices ==
  /\ At("svc") /\ Step
  /\ svc' = [permit |-> E.permit, hb |-> E.hb, list |-> E.list]
  /\ UNCHANGED <<s, permits, wl, known, tasks, fresh, clk>>

Stall ==
  /\ At("stall") /\ Step
  /\ s' = [s EXCEPT !.conns[E.c].stalled = E.on]
  /\ UNCHANGED <<permits, wl, known, tasks, fresh, clk, svc>>

Deafen ==
  /\ At("deaf") /\ Step
  /\ s' = [s EXCEPT !.conns[E.c].deaf = 1]
  /\ UNCHANGED <<permits, wl, known, tasks, fresh, clk, svc>>

\* Somebody connects, and that never gets anywhere.
Stuck ==
  /\ At("stuck") /\ Step
  /\ UNCHANGED <<s, permits, wl, known, tasks, fresh, clk, svc>>

\* Time passes (not so much that a task is due twice)
Pass ==
  /\ (At("tick") \/ At("adv")) = TRUE /\ Step
  /\ s' = Timeout(s, E.now)
  /\ tasks' = tasks \cup (IF clk.sync <= E.now THEN {"sync"} ELSE {}) \cup (IF clk.wl <= E.now THEN {"wl"} ELSE {})
  /\ clk' = [clk EXCEPT !.now = E.now, !.sync = IF @ <= E.now THEN @ + 10000 ELSE @, !.wl = IF @ <= E.now THEN @ + 60000 ELSE @]
  /\ UNCHANGED <<permits, wl, known, fresh, svc>>

----------------------------------------------------------------------------
(* Observations *)

\* the part of the broker's output on a connection that is in focus
Class(m) == IF m.t = "msg" THEN (IF m.k = "d" THEN "direct" ELSE "bcast")
            ELSE IF m.t \in {"usync", "tsync"} THEN m.t
            ELSE IF m.t \in {"authresp", "authkey"} THEN "auth"
            ELSE "other"
See(f) == "all" \in Focus \/ f \in Focus
Proj(q) == SelectSeq(q, LAMBDA m : Class(m) = "other" \/ See(Class(m)))

\* the observer does not see what becomes of these
Unseen(x) == x.stalled \/ x.deaf # 0

(* What the observer collects at the next rest is known: an order of handling that has already produced      *)
(* something else need not be pursued.                                                                     *)
Plausible(t) ==
  \/ Debug
  \/ \A c \in DOMAIN t.conns : c <= Len(E.outs) =>
       LET want == Proj(t.conns[c].out)
           got == Proj(E.outs[c])
       IN  Unseen(t.conns[c]) \/ IsPrefix(want, got) \/ (IsPrefix(got, want) /\ (E.closed[c] \/ ~See("closed")))

----------------------------------------------------------------------------
(* What the broker does by itself, before it is at rest *)

PermitKey(p) == LET ps == {x \in permits : x[1] = p /\ x[2] = Self} IN
                IF ps = {} THEN 0 ELSE (CHOOSE x \in ps : TRUE)[3]

Process(c) ==
  /\ At("q") /\ s.conns[c].inq # <<>> /\ s.conns[c].st # "wait"
  /\ LET m == Head(s.conns[c].inq)
         shown == s.conns[c].kind = "u" /\ s.conns[c].st = "a0" /\ m.t = "permit"
         k == IF shown /\ svc.permit = "ok" THEN PermitKey(m.p) ELSE 0
         hang == shown /\ svc.permit = "hang"
     IN  /\ \E late \in (IF s.conns[c].deaf \in {4, 5} /\ Len(s.conns[c].inq) > 1 THEN BOOLEAN ELSE {FALSE}) :
              s' = IF hang THEN [Pop(s, c) EXCEPT !.conns[c].st = "wait"] ELSE IF late THEN HandleLate(s, c, k) ELSE Handle(s, c, k)
         /\ Plausible(s') = TRUE
         /\ permits' = IF k # 0 THEN {x \in permits : ~(x[1] = m.p /\ x[2] = Self)} ELSE permits
  /\ UNCHANGED <<tid, i, wl, known, tasks, fresh, clk, svc>>

\* Writing to a connection the other side has closed fails; the broker may notice that before it has read all
\* that was sent on it.
WriteFails(c) ==
  /\ At("q") /\ s.conns[c].cut /\ s.conns[c].st = "live" /\ s.conns[c].out # <<>>
  /\ s' = GiveUp(s, c)
  /\ UNCHANGED <<tid, i, permits, wl, known, tasks, fresh, clk, svc>>

\* It has been noticed before the second message was sent.
SendFails(c) ==
  /\ At("q") /\ s.conns[c].deaf = 3 /\ s.conns[c].st = "live"
  /\ s' = GiveUp(s, c)
  /\ UNCHANGED <<tid, i, permits, wl, known, tasks, fresh, clk, svc>>

RoundSync ==
  /\ At("q") /\ "sync" \in tasks /\ tasks' = tasks \ {"sync"}
  /\ s' = SyncRound(s)
  /\ Plausible(s') = TRUE
  /\ UNCHANGED <<tid, i, permits, wl, known, fresh, clk, svc>>

RoundWhitelist ==
  /\ At("q") /\ "wl" \in tasks /\ tasks' = tasks \ {"wl"}
  /\ s' = IF wl.on THEN WhitelistRound(s, wl.ks) ELSE s
  /\ UNCHANGED <<tid, i, permits, wl, known, fresh, clk, svc>>

\* A call that is not answered is given up after five seconds.
Late(how) == IF how = "hang" THEN 5000 ELSE 0
RoundHeartbeat ==
  /\ At("q") /\ clk.hb <= clk.now
  /\ IF clk.ph = "beat"
     THEN /\ s' = IF svc.hb = "ok" THEN Heartbeat(s) ELSE s
          /\ clk' = [clk EXCEPT !.ph = "list", !.hb = @ + Late(svc.hb)]
          /\ UNCHANGED fresh
     ELSE LET call == IF svc.list = "ok" THEN SetToSortSeq(DialSet(s, known.bs) \cap known.up, LAMBDA a, b : a < b) ELSE <<>>
          IN  /\ s' = Timeout([s EXCEPT !.conns = @ \o [j \in DOMAIN call |-> Dialled(call[j], clk.hb)]], clk.now)
              /\ fresh' = fresh \cup {<<call[j], Len(s.conns) + j>> : j \in DOMAIN call}
              /\ clk' = [clk EXCEPT !.ph = "beat", !.hb = @ + Late(svc.list) + 10000,
                                    !.lists = IF svc.list = "hang" THEN @ ELSE @ + 1]
  /\ UNCHANGED <<tid, i, permits, wl, known, tasks, svc>>

----------------------------------------------------------------------------
(* Rest: compare *)

OutsAgree ==
  /\ Len(E.outs) = Len(s.conns)
  /\ \A c \in DOMAIN s.conns :
       LET want == Proj(s.conns[c].out)
           got == Proj(E.outs[c])
       IN  Unseen(s.conns[c]) \/ IF s.conns[c].st = "closed" THEN IsPrefix(got, want) ELSE got = want

Observed ==
  /\ OutsAgree
  /\ See("closed") => \A c \in DOMAIN s.conns : Unseen(s.conns[c]) \/ E.closed[c] = (s.conns[c].st = "closed" \/ s.conns[c].cut)
  /\ See("dials") => {<<d[1], d[2]>> : d \in Range(E.dials)} = fresh
  /\ See("gauges") => /\ E.gu = Cardinality({k \in Keys : s.users[k] # 0})
                      /\ E.gb = Cardinality({b \in Brokers : s.links[b] # 0})
  /\ See("hb") => E.hb = s.hbs /\ E.lists = clk.lists
  /\ See("hook") => /\ \A k \in 1..Len(E.hku) : E.hku[k] = s.hku[k]
                    /\ \A b \in 1..Len(E.hkb) : E.hkb[b] = s.hkb[b]
                    /\ E.hkx = 0
  /\ ~E.dead

Collected ==
  [s EXCEPT !.conns = [c \in DOMAIN @ |-> IF @[c].stalled THEN @[c]
                                          ELSE IF @[c].st = "closed" THEN [NewConn(@[c].kind) EXCEPT !.st = "closed", !.cut = TRUE, !.deaf = s.conns[c].deaf]
                                          ELSE [@[c] EXCEPT !.out = <<>>, !.deaf = IF @ \in {2, 3} THEN 4 ELSE @]],
            !.hbs = <<>>, !.hku = [k \in Keys |-> <<>>], !.hkb = [b \in Brokers |-> <<>>]]

Rest ==
  /\ At("q") /\ tasks = {} /\ clk.hb > clk.now
  /\ \A c \in DOMAIN s.conns : Quiet(c)
  /\ IF Observed THEN TRUE
     ELSE /\ Debug
          /\ PrintT(<<"MISMATCH", tid, i, "want", [c \in DOMAIN s.conns |-> <<s.conns[c].kind, s.conns[c].st, s.conns[c].who, s.conns[c].out>>],
                      "got", E, "dm", s.dm, "subs", s.subs, "fresh", fresh>>)
          /\ FALSE
  /\ Step
  /\ s' = Collected
  /\ fresh' = {} /\ clk' = [clk EXCEPT !.lists = 0]
  /\ UNCHANGED <<permits, wl, known, tasks, svc>>

Next ==
  \/ Open \/ Send \/ Drop \/ SetBrokers \/ SetWhitelist \/ SetServices \/ Stall \/ Deafen \/ Stuck \/ Pass
  \/ \E c \in DOMAIN s.conns : Process(c) \/ WriteFails(c) \/ SendFails(c)
  \/ RoundSync \/ RoundWhitelist \/ RoundHeartbeat
  \/ Rest

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Acceptance: for every trace the furthest event reached *)

Reg(t) == 100 + t
Done == TLCGet(Reg(tid)) = Len(Ev) + 1      \* one explanation is enough
Progress == /\ ~Done
            /\ IF TLCGet(Reg(tid)) < i THEN TLCSet(Reg(tid), i) ELSE TRUE
ASSUME \A t \in DOMAIN Traces : TLCSet(Reg(t), 0)

Accepted ==
  \A t \in DOMAIN Traces :
    \/ TLCGet(Reg(t)) = Len(Traces[t].ev) + 1
    \/ PrintT(<<"REJECTED", t, TLCGet(Reg(t))>>)

\* the specification's own claims, on the states real executions lead to
Inv == CoreInv(s)
=============================================================================
