--------------------------- MODULE ClientMonitor ---------------------------
(***************************************************************************)
(* The observable meaning of the generated TypeScript client: a             *)
(* deterministic observer over what the user does, what the network does,   *)
(* and what the client does to WebSocket objects, timers, promises and      *)
(* callbacks.                                                               *)
(*                                                                         *)
(*  by the user      call t k       k: req | sub  (calls are numbered)      *)
(*                   att b t        callback b is attached to store t        *)
(*                   det b          callback b is detached                   *)
(*  by the world     sopen i  sfail i  sclose i     socket i opens, fails to *)
(*                                  open, is closed (event delivered)        *)
(*                   frame i k t x  a frame arrives on socket i: k is method,*)
(*                                  stream, error for call t with value x;   *)
(*                                  t = 0: for an id nobody uses / no id     *)
(*                   sdying i       the peer is closing socket i, the event *)
(*                                  is not delivered yet                    *)
(*                   fire           the pending timer expires                *)
(*  by the client    new i          constructs socket i                      *)
(*                   send i t g     sends a frame: call t, g = 1 if it is    *)
(*                                  exactly that call's request with an id   *)
(*                                  of its own, 2 if the id is not its own   *)
(*                                  (t = 0: no call's)                       *)
(*                   close i        closes socket i                          *)
(*                   tset d  tclr   sets / clears a timer                    *)
(*                   settle t h x   promise of t: h ok | err, value x        *)
(*                   cb b x         callback b gets item x                   *)
(*                   quiet          the client has nothing more to do        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Delays == <<100, 200, 1000, 3000>>
Delay(n) == IF n >= 4 THEN 3000 ELSE Delays[n + 1]

MonInit ==
  [ sock  |-> <<>>,      \* i -> connecting | open | dying | closed | given (up by the client)
    call  |-> <<>>,      \* t -> [k, sent, st, due]
    cb    |-> <<>>,      \* b -> [t, on, due]
    timer |-> 0,         \* 0: none, else its delay
    tries |-> 0,         \* re-openings scheduled since the last success
    idle  |-> FALSE,     \* the last waiting request or callback has gone
    lost  |-> FALSE,     \* the live connection was lost while somebody waited
    cause |-> "none",    \* the stimulus being worked on
    stale |-> FALSE,     \* ... which concerns a socket given up earlier
    last  |-> 0,         \* last call transmitted
    viol  |-> {} ]

Put(f, k, v) == (k :> v) @@ f
Flag(m, w) == [m EXCEPT !.viol = @ \cup {w}]
FlagIf(b, m, w) == IF b THEN Flag(m, w) ELSE m

Live(m) == {i \in DOMAIN m.sock : m.sock[i] \in {"connecting", "open"}}
OpenS(m) == {i \in DOMAIN m.sock : m.sock[i] = "open"}
Waiting(m, t) == m.call[t].k = "req" /\ m.call[t].st = "wait"
Waiters(m) == \/ \E t \in DOMAIN m.call : Waiting(m, t)
              \/ \E b \in DOMAIN m.cb : m.cb[b].on
\* .. who have not got what they were waiting for
Owed(m) == \/ \E t \in DOMAIN m.call : Waiting(m, t) /\ m.call[t].due = <<>>
           \/ \E b \in DOMAIN m.cb : m.cb[b].on
Unsent(m) == {t \in DOMAIN m.call : ~m.call[t].sent}

\* every stimulus begins a new step
Step(m, cause) == [m EXCEPT !.cause = cause, !.stale = FALSE]
Left(m, m2) == IF Waiters(m) /\ ~Waiters(m2) THEN [m2 EXCEPT !.idle = TRUE, !.lost = FALSE] ELSE m2

OnFrame(m, e) ==
  LET m1 == Step(m, "frame") IN
  IF e.t = 0 \/ e.t \notin DOMAIN m.call THEN m1
  ELSE LET c == m.call[e.t] IN
    CASE c.k = "req" /\ c.st = "wait" /\ e.k \in {"method", "error"} ->
           [m1 EXCEPT !.call[e.t].due = <<IF e.k = "method" THEN "ok" ELSE "err", e.x>>]
      [] c.k = "sub" /\ e.k = "stream" ->
           [m1 EXCEPT !.cb = [b \in DOMAIN m.cb |->
              IF m.cb[b].t = e.t /\ m.cb[b].on
              THEN [m.cb[b] EXCEPT !.due = Append(@, e.x)] ELSE m.cb[b]]]
      [] OTHER -> m1

OnLoss(m, e, cause) ==
  LET given == m.sock[e.i] = "given"
      m1 == [Step(m, cause) EXCEPT !.sock[e.i] = "closed", !.stale = given]
  IN IF given THEN m1 ELSE [m1 EXCEPT !.lost = Waiters(m)]

OnNew(m, e) ==
  LET allowed == m.cause \in {"call", "fire"} \/ (m.cause = "att" /\ Unsent(m) # {})
      m1 == FlagIf(Live(m) # {}, m, "socket")
      m2 == FlagIf(m.stale \/ (m.idle /\ m.cause # "call"), m1, "socket")
      m3 == FlagIf(~allowed /\ ~m.stale, m2, "retry")
  IN [m3 EXCEPT !.sock = Put([i \in DOMAIN m.sock |-> IF m.sock[i] = "dying" THEN "given" ELSE m.sock[i]],
                             e.i, "connecting"),
                !.lost = FALSE]

OnSend(m, e) ==
  LET m1 == FlagIf(e.i \notin DOMAIN m.sock \/ m.sock[e.i] # "open", m, "send")
      bad == e.t = 0 \/ e.g = 0 \/ e.t \notin DOMAIN m.call
      m2 == FlagIf(e.g = 2, FlagIf(bad, m1, "send"), "pair")
  IN IF bad THEN m2
     ELSE [FlagIf(m.call[e.t].sent \/ e.t < m.last, m2, "send")
             EXCEPT !.call[e.t].sent = TRUE, !.last = e.t]

OnTimer(m, e) ==
  LET ok == m.cause \in {"sclose", "sfail"} /\ ~m.stale /\ Waiters(m) /\ m.timer = 0
            /\ e.d = Delay(m.tries)
      m1 == FlagIf(~ok, m, "retry")
      m2 == FlagIf(m.stale, m1, "socket")
  IN [m2 EXCEPT !.timer = e.d, !.tries = @ + 1]

OnSettle(m, e) ==
  LET c == m.call[e.t] IN
  IF c.st # "wait" \/ c.due # <<e.h, e.x>>
  THEN [Flag(m, "pair") EXCEPT !.call[e.t].st = "done"]
  ELSE Left(m, [m EXCEPT !.call[e.t].st = "done"])

OnCb(m, e) ==
  LET b == m.cb[e.b] IN
  IF ~b.on \/ b.due = <<>> \/ Head(b.due) # e.x THEN Flag(m, "pair")
  ELSE [m EXCEPT !.cb[e.b].due = Tail(@)]

OnQuiet(m) ==
  LET w == Waiters(m)
      m1 == FlagIf(\E t \in DOMAIN m.call : m.call[t].st = "wait" /\ m.call[t].due # <<>>, m, "pair")
      m2 == FlagIf(\E b \in DOMAIN m.cb : m.cb[b].on /\ m.cb[b].due # <<>>, m1, "pair")
      \* nobody needs a socket any more
      m3 == FlagIf(m.idle /\ (Live(m) # {} \/ m.timer # 0), m2, "socket")
      \* calls made are transmitted as soon as there is an open socket ..
      m4 == FlagIf(OpenS(m) # {} /\ Unsent(m) # {}, m3, "send")
      \* .. which somebody is working on
      m5 == FlagIf(w /\ Unsent(m) # {} /\ Live(m) = {} /\ m.timer = 0
                     /\ ~\E i \in DOMAIN m.sock : m.sock[i] = "dying", m4, "send")
      m6 == FlagIf(m.cause = "call" /\ Unsent(m) # {} /\ Live(m) = {} /\ m.timer = 0
                     /\ ~\E i \in DOMAIN m.sock : m.sock[i] = "dying", m5, "send")
      \* a lost connection is being re-established, after the expiry at once
      m7 == FlagIf(m.lost /\ w /\ m.timer = 0 /\ Live(m) = {}, m6, "retry")
      m8 == FlagIf(m.cause = "fire" /\ w /\ Live(m) = {}, m7, "retry")
      m9 == FlagIf(m.timer # 0 /\ Live(m) # {}, m8, "retry")
  IN m9

MonStep(m, e) ==
  CASE e.e = "call" ->
         [Step(m, "call") EXCEPT !.call = Put(@, e.t, [k |-> e.k, sent |-> FALSE, st |-> "wait", due |-> <<>>]),
                                 !.idle = FALSE]
    [] e.e = "att"  -> [Step(m, "att") EXCEPT !.cb = Put(@, e.b, [t |-> e.t, on |-> TRUE, due |-> <<>>]),
                                              !.idle = FALSE]
    [] e.e = "det"  -> LET m2 == [Step(m, "det") EXCEPT !.cb[e.b].on = FALSE, !.cb[e.b].due = <<>>]
                       IN Left(m, m2)
    [] e.e = "sopen"  -> LET given == m.sock[e.i] = "given" IN
                         [Step(m, "sopen") EXCEPT !.sock[e.i] = IF given THEN @ ELSE "open",
                                                  !.tries = IF given THEN @ ELSE 0, !.stale = given]
    [] e.e = "sdying" -> [Step(m, "sdying") EXCEPT !.sock[e.i] = IF @ = "open" THEN "dying" ELSE @]
    [] e.e = "sfail"  -> OnLoss(m, e, "sfail")
    [] e.e = "sclose" -> OnLoss(m, e, "sclose")
    [] e.e = "frame"  -> OnFrame(m, e)
    [] e.e = "fire"   -> [Step(m, "fire") EXCEPT !.timer = 0]
    [] e.e = "new"    -> OnNew(m, e)
    [] e.e = "send"   -> OnSend(m, e)
    [] e.e = "close"  ->
         \* closing a socket somebody needs, or the successor of a stale one
         LET live == e.i \in Live(m) \/ m.sock[e.i] = "dying"
             m1 == FlagIf(e.i \in Live(m) /\ (m.stale \/ Owed(m)), m, "socket")
         IN IF live THEN [m1 EXCEPT !.sock[e.i] = "given"] ELSE m1
    [] e.e = "tset"   -> OnTimer(m, e)
    [] e.e = "tclr"   -> [m EXCEPT !.timer = 0]
    [] e.e = "settle" -> OnSettle(m, e)
    [] e.e = "cb"     -> OnCb(m, e)
    [] e.e = "quiet"  -> OnQuiet(m)

RECURSIVE MonRun(_, _, _)
MonRun(m, evs, i) == IF i > Len(evs) THEN m ELSE MonRun(MonStep(m, evs[i]), evs, i + 1)
=============================================================================
