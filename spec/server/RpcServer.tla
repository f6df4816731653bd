----------------------------- MODULE RpcServer -----------------------------
(***************************************************************************)
(* Design model of the zod rpc server: BackendProxy's single consumer task, *)
(* the derived Backend::handle_request, one task per stream, SubscriberMap  *)
(* per connection.  Structured like the implementation: one action per      *)
(* critical section.  Every transition feeds the events it makes visible to *)
(* the observer RpcMonitor, whose verdict is an invariant here.             *)
(*                                                                         *)
(*  proxy.rs   connect / split / ProxyTx::send   -> Connect, SendReq        *)
(*             rx.next().await                   -> Dequeue                 *)
(*             loop end, drop of all maps        -> LoopExit                *)
(*  impl_rpc   method arm before/after .await    -> Dequeue (gcall), Finish *)
(*             process_stream iteration          -> StreamStep              *)
(*  backend_impl  CancelStream arm, insert+abort -> Dequeue (cancel, open)  *)
(*  tokio      task drop after abort             -> AbortStep               *)
(*             poll that was running at abort    -> LateStep                *)
(***************************************************************************)
EXTENDS RpcMonitor

CONSTANTS Conns, Ids, Kinds, MaxReq, MaxEmit, MaxEnv,
          AllowDisc, AllowUnproxy, AllowDropMap, AllowBadItem,
          Scheduled   \* TRUE: environment acts only at quiet points (Run/Quiet)

VARIABLES conn, up, req, queue, cur, gate, n, strm, subs, inbox, loop,
          phase, env, mon, h

vars == <<conn, up, req, queue, cur, gate, n, strm, subs, inbox, loop, phase, env, mon, h>>
view == <<conn, up, req, queue, cur, gate, n, strm, subs, inbox, loop, phase, env, mon>>

Ev(s) == mon' = MonRun(mon, s, 1)
NoStream == [st |-> "none", src |-> <<>>, emitted |-> 0, taken |-> 0, ended |-> FALSE,
             aborted |-> FALSE, late |-> FALSE]

Init ==
  /\ conn = [c \in Conns |-> "none"] /\ up = TRUE
  /\ req = <<>> /\ queue = <<>> /\ cur = 0 /\ gate = {} /\ n = 0
  /\ strm = <<>> /\ subs = [c \in Conns |-> <<>>]
  /\ inbox = [c \in Conns |-> <<>>] /\ loop = "run"
  /\ phase = "env" /\ env = 0 /\ mon = MonInit /\ h = ""

R(t) == req[t]
IsOpen(c) == conn[c] \in {"open", "unmapped"}
Frame(k, id, t, x) == [k |-> k, id |-> id, t |-> t, x |-> x]
\* the client's receiving half is gone: frames vanish
Push(ib, c, f) == IF IsOpen(c) THEN [ib EXCEPT ![c] = Append(@, f)] ELSE ib

(* ----------------------------- environment ----------------------------- *)
EnvOK == (Scheduled => phase = "env") /\ env < MaxEnv
EnvStep(s) == /\ env' = env + 1 /\ h' = h \o s \o " "

Connect(c) ==
  /\ EnvOK /\ conn[c] = "none" /\ up /\ \A d \in Conns : d < c => conn[d] # "none"
  /\ conn' = [conn EXCEPT ![c] = "open"]
  /\ Ev(<<[e |-> "connect", c |-> c]>>)
  /\ EnvStep("c" \o ToString(c))
  /\ UNCHANGED <<up, req, queue, cur, gate, n, strm, subs, inbox, loop, phase>>

Letter(k) == CASE k = "call" -> "C" [] k = "gcall" -> "G" [] k = "badcall" -> "B"
               [] k = "open" -> "O" [] k = "cancel" -> "X" [] k = "bad" -> "b"
               [] k = "garbage" -> "z"

SendReq(c, k, id) ==
  /\ EnvOK /\ IsOpen(c) /\ Len(req) < MaxReq
  /\ (k = "garbage" => id = CHOOSE i \in Ids : TRUE)
  /\ (conn[c] = "unmapped" => k # "open")
  /\ LET t == Len(req) + 1 IN
     /\ req' = Append(req, [c |-> c, k |-> k, id |-> id])
     /\ strm' = Append(strm, NoStream)
     /\ queue' = IF loop = "run" THEN Append(queue, t) ELSE queue
     /\ Ev(<<[e |-> "send", c |-> c, t |-> t, k |-> k, id |-> id]>>)
     /\ EnvStep("s" \o ToString(c) \o Letter(k) \o ToString(id))
     /\ UNCHANGED <<conn, up, cur, gate, n, subs, inbox, loop, phase>>

OpenGate(t) ==
  /\ EnvOK /\ R(t).k = "gcall" /\ t \notin gate
  /\ gate' = gate \cup {t}
  /\ Ev(<<[e |-> "gate", t |-> t]>>)
  /\ EnvStep("g" \o ToString(t))
  /\ UNCHANGED <<conn, up, req, queue, cur, n, strm, subs, inbox, loop, phase>>

Emit(t, b) ==
  /\ EnvOK /\ R(t).k = "open" /\ ~strm[t].ended /\ strm[t].emitted < MaxEmit
  /\ strm[t].st # "gone"
  /\ (b = 1 => AllowBadItem)
  /\ strm' = [strm EXCEPT ![t].src = Append(@, b), ![t].emitted = @ + 1]
  /\ Ev(<<[e |-> "emit", t |-> t, i |-> strm[t].emitted + 1, b |-> b]>>)
  /\ EnvStep("e" \o ToString(t) \o ToString(b))
  /\ UNCHANGED <<conn, up, req, queue, cur, gate, n, subs, inbox, loop, phase>>

EndSrc(t) ==
  /\ EnvOK /\ R(t).k = "open" /\ ~strm[t].ended /\ strm[t].st # "gone"
  /\ strm' = [strm EXCEPT ![t].ended = TRUE]
  /\ Ev(<<[e |-> "end", t |-> t]>>)
  /\ EnvStep("x" \o ToString(t))
  /\ UNCHANGED <<conn, up, req, queue, cur, gate, n, subs, inbox, loop, phase>>

Disconnect(c) ==
  /\ EnvOK /\ AllowDisc /\ IsOpen(c)
  /\ conn' = [conn EXCEPT ![c] = "closed"]
  /\ inbox' = [inbox EXCEPT ![c] = <<>>]
  /\ Ev(<<[e |-> "disc", c |-> c]>>)
  /\ EnvStep("d" \o ToString(c))
  /\ UNCHANGED <<up, req, queue, cur, gate, n, strm, subs, loop, phase>>

DropProxy ==
  /\ EnvOK /\ AllowUnproxy /\ up
  /\ up' = FALSE
  /\ Ev(<<[e |-> "unproxy"]>>)
  /\ EnvStep("u")
  /\ UNCHANGED <<conn, req, queue, cur, gate, n, strm, subs, inbox, loop, phase>>

Abort(s, ts) == [t \in DOMAIN s |-> IF t \in ts THEN [s[t] EXCEPT !.aborted = TRUE] ELSE s[t]]
Range(f) == {f[x] : x \in DOMAIN f}

DropMap(c) ==     \* only an embedder without a proxy owns a SubscriberMap
  /\ EnvOK /\ AllowDropMap /\ conn[c] = "open" /\ cur = 0 /\ queue = <<>>
  /\ conn' = [conn EXCEPT ![c] = "unmapped"]
  /\ strm' = Abort(strm, Range(subs[c]))
  /\ subs' = [subs EXCEPT ![c] = <<>>]
  /\ Ev(<<[e |-> "dropmap", c |-> c]>>)
  /\ EnvStep("m" \o ToString(c))
  /\ UNCHANGED <<up, req, queue, cur, gate, n, inbox, loop, phase>>

(* ------------------------------- internal ------------------------------ *)
IntOK == Scheduled => phase = "run"
IntFrame == UNCHANGED <<conn, up, req, gate, phase, env, h>>

Dequeue ==
  /\ IntOK /\ loop = "run" /\ cur = 0 /\ queue # <<>>
  /\ queue' = Tail(queue)
  /\ LET t == Head(queue)  r == R(t) IN
     CASE r.k = "call" ->
            /\ n' = n + 1 /\ inbox' = Push(inbox, r.c, Frame("method", r.id, t, n + 1))
            /\ Ev(<<[e |-> "hs", t |-> t, n |-> n], [e |-> "he", t |-> t, n |-> n + 1]>>)
            /\ UNCHANGED <<cur, strm, subs>>
       [] r.k = "gcall" ->
            /\ cur' = t /\ Ev(<<[e |-> "hs", t |-> t, n |-> n]>>)
            /\ UNCHANGED <<n, strm, subs, inbox>>
       [] r.k = "badcall" ->
            /\ n' = n + 1 /\ inbox' = Push(inbox, r.c, Frame("error", r.id, t, 0))
            /\ Ev(<<[e |-> "hs", t |-> t, n |-> n], [e |-> "he", t |-> t, n |-> n + 1]>>)
            /\ UNCHANGED <<cur, strm, subs>>
       [] r.k = "open" ->
            LET old == IF r.id \in DOMAIN subs[r.c] THEN {subs[r.c][r.id]} ELSE {} IN
            /\ strm' = [Abort(strm, old) EXCEPT ![t].st = "run"]
            /\ subs' = [subs EXCEPT ![r.c] = Put(@, r.id, t)]
            /\ Ev(<<[e |-> "hs", t |-> t, n |-> n]>>)
            /\ UNCHANGED <<cur, n, inbox>>
       [] r.k = "cancel" ->
            /\ strm' = IF r.id \in DOMAIN subs[r.c] THEN Abort(strm, {subs[r.c][r.id]}) ELSE strm
            /\ subs' = [subs EXCEPT ![r.c] = Drop(@, r.id)]
            /\ UNCHANGED <<cur, n, inbox, mon>>
       [] r.k = "bad" ->
            /\ inbox' = Push(inbox, r.c, Frame("error", r.id, t, 0))
            /\ UNCHANGED <<cur, n, strm, subs, mon>>
       [] r.k = "garbage" ->
            /\ inbox' = Push(inbox, r.c, Frame("error", NoId, t, 0))
            /\ UNCHANGED <<cur, n, strm, subs, mon>>
  /\ UNCHANGED loop /\ IntFrame

Finish ==
  /\ IntOK /\ cur # 0 /\ cur \in gate
  /\ n' = n + 1 /\ cur' = 0
  /\ inbox' = Push(inbox, R(cur).c, Frame("method", R(cur).id, cur, n + 1))
  /\ Ev(<<[e |-> "he", t |-> cur, n |-> n + 1]>>)
  /\ UNCHANGED <<queue, strm, subs, loop>> /\ IntFrame

Advance(t) ==
  LET s == strm[t]  r == R(t) IN
  IF s.src # <<>>
  THEN LET i == s.taken + 1   b == Head(s.src)
           y == [e |-> "yield", t |-> t, i |-> i, b |-> b]
           s1 == [s EXCEPT !.src = Tail(@), !.taken = i]
       IN IF IsOpen(r.c)
          THEN /\ strm' = [strm EXCEPT ![t] = s1]
               /\ inbox' = Push(inbox, r.c, IF b = 1 THEN Frame("error", r.id, t, i)
                                                     ELSE Frame("stream", r.id, t, i))
               /\ Ev(<<y>>)
          ELSE /\ strm' = [strm EXCEPT ![t] = [s1 EXCEPT !.st = "gone"]]
               /\ Ev(<<y, [e |-> "sdrop", t |-> t]>>)
               /\ UNCHANGED inbox
  ELSE /\ s.ended
       /\ strm' = [strm EXCEPT ![t].st = "gone"]
       /\ Ev(<<[e |-> "sdrop", t |-> t]>>)
       /\ UNCHANGED inbox

StreamStep(t) ==
  /\ IntOK /\ strm[t].st = "run" /\ ~strm[t].aborted /\ Advance(t)
  /\ UNCHANGED <<queue, cur, n, subs, loop>> /\ IntFrame

AbortStep(t) ==
  /\ IntOK /\ strm[t].st = "run" /\ strm[t].aborted
  /\ strm' = [strm EXCEPT ![t].st = "gone"]
  /\ Ev(<<[e |-> "sdrop", t |-> t]>>)
  /\ UNCHANGED <<queue, cur, n, subs, inbox, loop>> /\ IntFrame

LateStep(t) ==   \* the poll which another thread was executing when abort was called
  /\ IntOK /\ ~Scheduled /\ strm[t].st = "run" /\ strm[t].aborted /\ ~strm[t].late
  /\ strm[t].src # <<>> /\ IsOpen(R(t).c)
  /\ LET i == strm[t].taken + 1  b == Head(strm[t].src) IN
     /\ strm' = [strm EXCEPT ![t].src = Tail(@), ![t].taken = i, ![t].late = TRUE]
     /\ inbox' = Push(inbox, R(t).c, IF b = 1 THEN Frame("error", R(t).id, t, i)
                                              ELSE Frame("stream", R(t).id, t, i))
     /\ Ev(<<[e |-> "yield", t |-> t, i |-> i, b |-> b]>>)
  /\ UNCHANGED <<queue, cur, n, subs, loop>> /\ IntFrame

LoopExit ==
  /\ IntOK /\ loop = "run" /\ cur = 0 /\ queue = <<>> /\ ~up
  /\ \A c \in Conns : conn[c] \in {"none", "closed"}
  /\ loop' = "exited"
  /\ strm' = Abort(strm, UNION {Range(subs[c]) : c \in Conns})
  /\ subs' = [c \in Conns |-> <<>>]
  /\ UNCHANGED <<queue, cur, n, inbox, mon>> /\ IntFrame

Recv(c) ==
  /\ IntOK /\ inbox[c] # <<>>
  /\ inbox' = [inbox EXCEPT ![c] = Tail(@)]
  /\ LET f == Head(inbox[c]) IN
     Ev(<<[e |-> "recv", c |-> c, k |-> f.k, id |-> f.id, t |-> f.t, x |-> f.x]>>)
  /\ UNCHANGED <<queue, cur, n, strm, subs, loop>> /\ IntFrame

Work ==   \* some internal step is possible
  \/ loop = "run" /\ cur = 0 /\ queue # <<>>
  \/ cur # 0 /\ cur \in gate
  \/ \E t \in DOMAIN strm : strm[t].st = "run"
        /\ (strm[t].aborted \/ strm[t].src # <<>> \/ strm[t].ended)
  \/ loop = "run" /\ cur = 0 /\ queue = <<>> /\ ~up
        /\ \A c \in Conns : conn[c] \in {"none", "closed"}
  \/ \E c \in Conns : inbox[c] # <<>>

\* In scheduled mode the server's own steps take a fixed order (the driver
\* cannot choose it); in free mode every order is explored.
LeastStream == CHOOSE t \in DOMAIN strm :
   /\ strm[t].st = "run" /\ (strm[t].aborted \/ strm[t].src # <<>> \/ strm[t].ended)
   /\ \A s \in DOMAIN strm : s < t =>
        ~(strm[s].st = "run" /\ (strm[s].aborted \/ strm[s].src # <<>> \/ strm[s].ended))
CanDequeue == loop = "run" /\ cur = 0 /\ queue # <<>>
CanFinish  == cur # 0 /\ cur \in gate
CanStream  == \E t \in DOMAIN strm : strm[t].st = "run"
                /\ (strm[t].aborted \/ strm[t].src # <<>> \/ strm[t].ended)
Fixed ==
  IF CanFinish THEN Finish
  ELSE IF CanDequeue THEN Dequeue
  ELSE IF CanStream THEN StreamStep(LeastStream) \/ AbortStep(LeastStream)
  ELSE LoopExit \/ \E c \in Conns : Recv(c) /\ \A d \in Conns : d < c => inbox[d] = <<>>

Internal ==
  IF Scheduled THEN phase = "run" /\ Work /\ Fixed
  ELSE \/ Dequeue \/ Finish \/ LoopExit
       \/ \E t \in DOMAIN strm : StreamStep(t) \/ AbortStep(t) \/ LateStep(t)
       \/ \E c \in Conns : Recv(c)

Run ==
  /\ Scheduled /\ phase = "env" /\ Work /\ phase' = "run" /\ h' = h \o "r "
  /\ UNCHANGED <<conn, up, req, queue, cur, gate, n, strm, subs, inbox, loop, env, mon>>

Quiet ==   \* nothing can happen without a new stimulus
  /\ IF Scheduled THEN phase = "run" /\ phase' = "env"
                  ELSE UNCHANGED phase
  /\ ~Work
  /\ Ev(<<[e |-> "quiet"]>>)
  /\ UNCHANGED <<conn, up, req, queue, cur, gate, n, strm, subs, inbox, loop, env, h>>

Env ==
  \/ \E c \in Conns : Connect(c) \/ Disconnect(c) \/ DropMap(c)
  \/ \E c \in Conns, k \in Kinds, id \in Ids : SendReq(c, k, id)
  \/ \E t \in DOMAIN req : OpenGate(t) \/ EndSrc(t) \/ \E b \in {0, 1} : Emit(t, b)
  \/ DropProxy

Next == Env \/ Internal \/ Run \/ Quiet

Fairness == /\ WF_vars(Internal) /\ WF_vars(Quiet)
            /\ \A t \in 1..MaxReq : WF_vars(t \in DOMAIN req /\ OpenGate(t))
Spec == Init /\ [][Next]_vars /\ Fairness

(* ------------------------------ properties ----------------------------- *)
NoViolation == mon.viol = {}

\* the maps mention only streams of their own connection and id
SubsOwn == \A c \in Conns : \A id \in DOMAIN subs[c] :
             R(subs[c][id]).c = c /\ R(subs[c][id]).id = id /\ R(subs[c][id]).k = "open"
\* every stream that is running can still be reached by a cancellation
Reachable == \A t \in DOMAIN strm :
   strm[t].st = "run" /\ ~strm[t].aborted =>
     R(t).id \in DOMAIN subs[R(t).c] /\ subs[R(t).c][R(t).id] = t
\* a connection receives only frames for its own requests
OwnFrames == \A c \in Conns : \A i \in DOMAIN inbox[c] :
               R(inbox[c][i].t).c = c /\ (inbox[c][i].id \in {R(inbox[c][i].t).id, NoId})
\* the queue is in arrival order
QueueOrder == \A i, j \in DOMAIN queue : i < j => queue[i] < queue[j]
\* handlers' effects are counted once
CountOK == n = Cardinality({t \in DOMAIN req : R(t).k \in {"call", "badcall", "gcall"}
                 /\ t \in DOMAIN mon.rq /\ mon.rq[t].st \in {"ended", "done"}})

\* liveness: calls of clients who stay are answered; cancelled streams are released
AnsweredEventually ==
  \A t \in 1..MaxReq :
    (t \in DOMAIN req /\ IsCall(req[t].k)) ~>
      (t \in DOMAIN req /\ (mon.rq[t].st = "done" \/ ~IsOpen(req[t].c)))
ReleasedEventually ==
  \A t \in 1..MaxReq :
    (t \in DOMAIN req /\ strm[t].aborted) ~> (strm[t].st = "gone")
=============================================================================
