----------------------------- MODULE RpcMonitor -----------------------------
(***************************************************************************)
(* The observable meaning of the zod rpc server: a deterministic observer  *)
(* over the events that a client, a handler or the embedding program can   *)
(* see.  The same operators judge the design (RpcServer.tla feeds them the  *)
(* events of every transition under TLC) and the implementation             *)
(* (ServerTrace.tla feeds them recorded executions).                        *)
(*                                                                         *)
(* Events (records with field e):                                           *)
(*   connect c          a connection was made                               *)
(*   leave c            the client begins to go away (threads only)          *)
(*   disc c             the client went away (both halves dropped)          *)
(*   unproxy            the server's own handle was dropped                 *)
(*   dropmap c          the embedder dropped the connection's subscriptions *)
(*   send c t k id      request number t was handed to the server; k is     *)
(*                      call | gcall | badcall | open | cancel | bad |       *)
(*                      garbage.  Numbers grow in the order of arrival.     *)
(*   gate t             the suspended handler of gcall t may go on          *)
(*   hs t n             the handler of t starts and sees state n            *)
(*   he t n             the handler of t ends and leaves state n            *)
(*   emit t i b         item i (b = 1: it cannot be encoded) becomes         *)
(*                      available in the stream of t                        *)
(*   end t              the stream of t has no more items                   *)
(*   yield t i b        the stream of t hands item i to the server          *)
(*   sdrop t            the stream of t was released                        *)
(*   recv c k id t x    a frame reached the client: k is method | stream |   *)
(*                      error | junk, x the value or the item's number       *)
(*   quiet              nothing more can happen without a new stimulus       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NoId == 0   \* id of an error frame that carries no id

MonInit ==
  [ conn |-> <<>>,       \* connection -> "open" | "closed" | "unmapped"
    up   |-> TRUE,       \* the server's own handle exists
    rq   |-> <<>>,       \* request number -> its record
    err  |-> {},         \* error frames owed: <<c, id, t, i>>
    cur  |-> 0,          \* handler that is running
    cnt  |-> 0,          \* state left by the last handler
    viol |-> {} ]        \* what went wrong: <<kind, connection, request>>

Put(f, k, v) == (k :> v) @@ f
Drop(f, k)   == [x \in (DOMAIN f) \ {k} |-> f[x]]
Flag(m, kind, c, t) == [m EXCEPT !.viol = @ \cup {<<kind, c, t>>}]
FlagIf(b, m, kind, c, t) == IF b THEN Flag(m, kind, c, t) ELSE m

Known(m, t)   == t \in DOMAIN m.rq
Open(m, c)    == c \in DOMAIN m.conn /\ m.conn[c] \notin {"closed", "leaving"}
IsCall(k)     == k \in {"call", "gcall", "badcall"}
HasHandler(k) == IsCall(k) \/ k = "open"
\* requests behind a suspended handler cannot have been served yet
Blocked(m, t) == m.cur # 0 /\ t > m.cur
ShutDown(m)   == ~m.up /\ \A c \in DOMAIN m.conn : m.conn[c] = "closed"

NewReq(e) == [ c |-> e.c, k |-> e.k, id |-> e.id, st |-> "sent", val |-> 0,
               gate |-> FALSE, src |-> 0, ended |-> FALSE, got |-> 0,
               pend |-> <<>>, can |-> 0, eff |-> FALSE, repl |-> FALSE,
               late |-> FALSE ]

Fresh(m, e) ==   \* a connection that has just been made
  [m EXCEPT !.conn = Put(@, e.c, "open")]

\* A cancellation is aimed at every stream opened earlier under the same id of
\* the same connection; opening another stream under that id supersedes them.
Aim(m, e) ==
  [m EXCEPT !.rq = [t \in DOMAIN m.rq |->
     IF m.rq[t].k = "open" /\ m.rq[t].c = e.c /\ m.rq[t].id = e.id
       /\ m.rq[t].st # "gone"
     THEN IF e.k = "cancel" THEN [m.rq[t] EXCEPT !.can = IF @ = 0 THEN e.t ELSE @]
                            ELSE [m.rq[t] EXCEPT !.repl = TRUE]
     ELSE m.rq[t]]]

OnSend(m, e) ==
  LET m1 == IF e.k \in {"cancel", "open"} THEN Aim(m, e) ELSE m
  IN CASE e.k = "bad"     -> [m1 EXCEPT !.err = @ \cup {<<e.c, e.id, e.t, 0>>},
                                        !.rq = Put(@, e.t, [NewReq(e) EXCEPT !.st = "done"])]
       [] e.k = "garbage" -> [m1 EXCEPT !.err = @ \cup {<<e.c, NoId, e.t, 0>>},
                                        !.rq = Put(@, e.t, [NewReq(e) EXCEPT !.st = "done"])]
       [] e.k = "cancel"  -> m1
       [] OTHER           -> [m1 EXCEPT !.rq = Put(@, e.t, NewReq(e))]

OnHandlerStart(m, e) ==
  IF ~Known(m, e.t) THEN Flag(m, "order", 0, e.t)
  ELSE
    LET r == m.rq[e.t]
        isBad == r.k \in {"bad", "garbage"}
        skipped == \E s \in DOMAIN m.rq : /\ s < e.t /\ HasHandler(m.rq[s].k)
                                          /\ m.rq[s].st = "sent" /\ Open(m, m.rq[s].c)
        m1 == FlagIf(isBad, m, "badreq", r.c, e.t)
        m2 == FlagIf(~isBad /\ (r.st # "sent" \/ m.cur # 0 \/ skipped \/ e.n # m.cnt),
                     m1, "order", r.c, e.t)
    IN IF isBad THEN m2
       ELSE [m2 EXCEPT !.rq[e.t].st = IF r.k = "open" THEN "run" ELSE "started",
                       !.cur = IF r.k = "open" THEN @ ELSE e.t]

OnHandlerEnd(m, e) ==
  IF ~Known(m, e.t) \/ m.rq[e.t].k \in {"bad", "garbage"} THEN [m EXCEPT !.cur = 0, !.cnt = e.n]
  ELSE
    LET r == m.rq[e.t]
        m1 == FlagIf(e.n # m.cnt + 1 \/ m.cur # e.t, m, "order", r.c, e.t)
        m2 == [m1 EXCEPT !.cur = 0, !.cnt = e.n]
    IN IF r.k = "badcall"
       THEN [m2 EXCEPT !.rq[e.t].st = "done",
                       !.err = @ \cup {<<r.c, r.id, e.t, 0>>}]
       ELSE [m2 EXCEPT !.rq[e.t].st = "ended", !.rq[e.t].val = e.n]

OnYield(m, e) ==
  IF ~Known(m, e.t) THEN m
  ELSE
    LET r  == m.rq[e.t]
        m1 == FlagIf(r.eff, m, "cancel", r.c, e.t)
        m2 == FlagIf(~Open(m, r.c) /\ r.late, m1, "release", r.c, e.t)
        m3 == FlagIf(e.i # r.got + 1, m2, "item", r.c, e.t)
    IN IF ~Open(m, r.c)
       THEN [m3 EXCEPT !.rq[e.t].late = @ \/ m.conn[r.c] # "leaving", !.rq[e.t].got = e.i]
       ELSE IF e.b = 1
            THEN [m3 EXCEPT !.rq[e.t].got = e.i, !.err = @ \cup {<<r.c, r.id, e.t, e.i>>}]
            ELSE [m3 EXCEPT !.rq[e.t].got = e.i, !.rq[e.t].pend = Append(@, e.i)]

OnStreamGone(m, e) ==
  IF ~Known(m, e.t) THEN m
  ELSE
    LET r == m.rq[e.t]
        justified == \/ (r.ended /\ r.got = r.src)
                     \/ r.can # 0 \/ r.repl \/ ~Open(m, r.c)
                     \/ (r.c \in DOMAIN m.conn /\ m.conn[r.c] = "unmapped")
                     \/ ShutDown(m)
    IN [FlagIf(~justified, m, "item", r.c, e.t) EXCEPT !.rq[e.t].st = "gone"]

OnRecv(m, e) ==
  IF e.c \in DOMAIN m.conn /\ ~Open(m, e.c) THEN m ELSE
  CASE e.k = "method" ->
         IF ~Known(m, e.t) \/ m.rq[e.t].c # e.c \/ m.rq[e.t].id # e.id
            \/ m.rq[e.t].st # "ended" \/ m.rq[e.t].val # e.x
         THEN Flag(m, "reply", e.c, e.t)
         ELSE LET overtakes == \E s \in DOMAIN m.rq :
                      /\ s < e.t /\ m.rq[s].c = e.c /\ IsCall(m.rq[s].k)
                      /\ m.rq[s].st \in {"sent", "started", "ended"}
              IN [FlagIf(overtakes, m, "order", e.c, e.t) EXCEPT !.rq[e.t].st = "done"]
    [] e.k = "stream" ->
         IF ~Known(m, e.t) \/ m.rq[e.t].c # e.c \/ m.rq[e.t].id # e.id
            \/ m.rq[e.t].k # "open" \/ m.rq[e.t].pend = <<>>
         THEN Flag(m, "item", e.c, e.t)
         ELSE LET r  == m.rq[e.t]
                  m1 == FlagIf(r.eff, m, "cancel", e.c, e.t)
              IN IF Head(r.pend) = e.x
                 THEN [m1 EXCEPT !.rq[e.t].pend = Tail(@)]
                 ELSE Flag(m1, "item", e.c, e.t)
    [] e.k = "error" ->
         LET owed == {o \in m.err : o[1] = e.c /\ o[2] = e.id}
         IN IF owed # {}
            THEN [m EXCEPT !.err = @ \ {CHOOSE o \in owed :
                     \A p \in owed : o[3] < p[3] \/ (o[3] = p[3] /\ o[4] <= p[4])}]
            ELSE LET waiting(k) == \E s \in DOMAIN m.rq :
                       /\ m.rq[s].c = e.c /\ m.rq[s].id = e.id
                       /\ IF k = "open" THEN m.rq[s].k = "open" ELSE IsCall(m.rq[s].k)
                 IN IF waiting("call") THEN Flag(m, "reply", e.c, 0)
                    ELSE IF waiting("open") THEN Flag(m, "item", e.c, 0)
                    ELSE Flag(m, "badreq", e.c, 0)
    [] OTHER -> Flag(m, "junk", e.c, 0)

\* What must have happened once nothing more can happen.
Overdue(m) ==
  LET T == DOMAIN m.rq
      R(t) == m.rq[t]
      live(t) == Open(m, R(t).c) /\ ~Blocked(m, t)
      waiting(t) == t = m.cur /\ R(t).k = "gcall" /\ ~R(t).gate
      stopped(t) == R(t).can # 0 \/ R(t).repl \/ R(t).st = "gone"
                    \/ m.conn[R(t).c] = "unmapped"
  IN   {<<"reply", R(t).c, t>> : t \in {t \in T : live(t) /\ IsCall(R(t).k)
                                          /\ R(t).st # "done" /\ ~waiting(t)}}
  \cup {<<"item", R(t).c, t>>  : t \in {t \in T : live(t) /\ R(t).k = "open" /\ R(t).st = "sent"}}
  \cup {<<"item", R(t).c, t>>  : t \in {t \in T : live(t) /\ R(t).k = "open" /\ R(t).st = "run"
                                          /\ ~stopped(t) /\ R(t).got # R(t).src}}
  \cup {<<"item", R(t).c, t>>  : t \in {t \in T : Open(m, R(t).c) /\ R(t).k = "open"
                                          /\ R(t).pend # <<>>
                                          /\ (~stopped(t) \/ (R(t).st = "gone" /\ R(t).can = 0
                                                 /\ ~R(t).repl /\ m.conn[R(t).c] = "open"))}}
  \cup {<<"cancel", R(t).c, t>> : t \in {t \in T : R(t).k = "open" /\ R(t).can # 0
                                          /\ Open(m, R(t).c)
                                          /\ ~Blocked(m, R(t).can) /\ R(t).st # "gone"}}
  \cup {<<"release", R(t).c, t>> : t \in {t \in T : R(t).k = "open" /\ R(t).st = "run"
                                          /\ \/ (R(t).ended /\ R(t).got = R(t).src /\ Open(m, R(t).c))
                                             \/ R(t).late
                                             \/ m.conn[R(t).c] = "unmapped"
                                             \/ (ShutDown(m) /\ m.cur = 0)}}
  \cup {<<IF m.rq[o[3]].k = "open" THEN "item"
          ELSE IF m.rq[o[3]].k = "badcall" THEN "reply" ELSE "badreq", o[1], o[3]>> :
          o \in {o \in m.err : Open(m, o[1]) /\ ~Blocked(m, o[3])
                               /\ ~(m.rq[o[3]].k = "open" /\ stopped(o[3]))}}

OnQuiet(m) ==
  LET late == Overdue(m)
      settled(t) ==   \* nothing is owed any more about request t
        \/ m.rq[t].st = "done" /\ \A o \in m.err : o[3] # t
        \/ m.rq[t].st = "gone" /\ m.rq[t].can # 0 /\ ~Blocked(m, m.rq[t].can)
        \/ m.rq[t].st = "gone" /\ m.rq[t].pend = <<>>
        \/ ~Open(m, m.rq[t].c) /\ m.rq[t].k # "open" /\ m.cur # t
        \/ ~Open(m, m.rq[t].c) /\ m.rq[t].st = "gone"
  IN [m EXCEPT !.viol = @ \cup late,
               !.err  = {o \in @ : Open(m, o[1])},
               !.rq   = [t \in DOMAIN m.rq |->
                  IF m.rq[t].can # 0 /\ ~Blocked(m, m.rq[t].can)
                  THEN [m.rq[t] EXCEPT !.eff = TRUE] ELSE m.rq[t]]]

MonStep(m, e) ==
  CASE e.e = "connect" -> Fresh(m, e)
    [] e.e = "leave"   -> [m EXCEPT !.conn = Put(@, e.c, "leaving")]
    [] e.e = "disc"    -> [m EXCEPT !.conn = Put(@, e.c, "closed")]
    [] e.e = "unproxy" -> [m EXCEPT !.up = FALSE]
    [] e.e = "dropmap" -> [m EXCEPT !.conn = Put(@, e.c, "unmapped")]
    [] e.e = "send"    -> OnSend(m, e)
    [] e.e = "gate"    -> IF Known(m, e.t) THEN [m EXCEPT !.rq[e.t].gate = TRUE] ELSE m
    [] e.e = "hs"      -> OnHandlerStart(m, e)
    [] e.e = "he"      -> OnHandlerEnd(m, e)
    [] e.e = "emit"    -> IF Known(m, e.t) THEN [m EXCEPT !.rq[e.t].src = @ + 1] ELSE m
    [] e.e = "end"     -> IF Known(m, e.t) THEN [m EXCEPT !.rq[e.t].ended = TRUE] ELSE m
    [] e.e = "yield"   -> OnYield(m, e)
    [] e.e = "sdrop"   -> OnStreamGone(m, e)
    [] e.e = "recv"    -> OnRecv(m, e)
    [] e.e = "quiet"   -> OnQuiet(m)

RECURSIVE MonRun(_, _, _)
MonRun(m, evs, i) == IF i > Len(evs) THEN m ELSE MonRun(MonStep(m, evs[i]), evs, i + 1)
=============================================================================
