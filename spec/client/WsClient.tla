------------------------------ MODULE WsClient ------------------------------
(***************************************************************************)
(* Design model of websocket_client.ts: one websocketStore, the reconnect   *)
(* timer, queued frames, requests and stores.  JavaScript runs one event to *)
(* its end, so every stimulus is one action with everything it causes.      *)
(***************************************************************************)
EXTENDS ClientMonitor, Randomization

CONSTANTS MaxCall, MaxSock, MaxCb, MaxEnv, MaxVal, Noise,
          Burst      \* so many calls are made before anything else happens, but sockets opening

VARIABLES sock,     \* i -> connecting | open | dying (by the peer) | closing | closed
          cur,      \* the socket in use, 0: none
          pend,     \* calls to be transmitted
          timer,    \* pending delay, 0: none
          count,    \* re-openings scheduled since the last success
          call,     \* t -> [k, st, onwire]
          cbs,      \* b -> [t, on]
          val, env, mon, h

vars == <<sock, cur, pend, timer, count, call, cbs, val, env, mon, h>>
view == <<sock, cur, pend, timer, count, call, cbs, val, env, mon>>

Init == /\ sock = <<>> /\ cur = 0 /\ pend = <<>> /\ timer = 0 /\ count = 0
        /\ call = <<>> /\ cbs = <<>> /\ val = 0 /\ env = 0 /\ mon = MonInit /\ h = ""

S == [sock |-> sock, cur |-> cur, pend |-> pend, timer |-> timer, count |-> count,
      call |-> call, cbs |-> cbs, ev |-> <<>>]
Log(s, e) == [s EXCEPT !.ev = Append(@, e)]
Need(s) == \/ \E t \in DOMAIN s.call : s.call[t].k = "req" /\ s.call[t].st = "wait"
           \/ \E b \in DOMAIN s.cbs : s.cbs[b].on

\* ---- the client's own functions, as state transformers
ClearTimer(s) == IF s.timer = 0 THEN s ELSE Log([s EXCEPT !.timer = 0], [e |-> "tclr"])
Close(s) ==
  LET s1 == ClearTimer(s) IN
  IF s1.cur = 0 THEN s1
  ELSE Log([s1 EXCEPT !.sock[s1.cur] = IF @ \in {"closed"} THEN @ ELSE "closing", !.cur = 0],
           [e |-> "close", i |-> s1.cur])
Open(s) ==
  LET s1 == ClearTimer(s) IN
  IF s1.cur # 0 /\ s1.sock[s1.cur] = "connecting" THEN s1
  ELSE Log([s1 EXCEPT !.sock = Append(@, "connecting"), !.cur = Len(s1.sock) + 1],
           [e |-> "new", i |-> Len(s1.sock) + 1])
RECURSIVE Flush(_)
Flush(s) == IF s.pend = <<>> THEN s
            ELSE Flush(Log([s EXCEPT !.pend = Tail(@), !.call[Head(s.pend)].onwire = TRUE],
                           [e |-> "send", i |-> s.cur, t |-> Head(s.pend), g |-> 1]))
Send(s, t) ==
  LET s1 == [s EXCEPT !.pend = Append(@, t)] IN
  IF s1.cur # 0 /\ s1.sock[s1.cur] = "open" THEN Flush(s1) ELSE Open(s1)
Reopen(s) ==
  LET s1 == Close(s) IN
  IF Need(s1) THEN Log([s1 EXCEPT !.timer = Delay(s1.count), !.count = @ + 1],
                       [e |-> "tset", d |-> Delay(s1.count)])
  ELSE s1
Unsubscribed(s) == IF Need(s) THEN s ELSE Close(s)

Commit(s, op) ==
  /\ sock' = s.sock /\ cur' = s.cur /\ pend' = s.pend /\ timer' = s.timer /\ count' = s.count
  /\ call' = s.call /\ cbs' = s.cbs
  /\ env' = env + 1 /\ h' = h \o op \o " "
  /\ mon' = MonRun(mon, Append(s.ev, [e |-> "quiet"]), 1)

(* ------------------------------- stimuli ------------------------------- *)
DoCall(k) ==
  /\ Len(call) < MaxCall
  /\ (Len(sock) < MaxSock \/ (cur # 0 /\ sock[cur] # "dying"))
  /\ LET t == Len(call) + 1
         s == Log([S EXCEPT !.call = Append(@, [k |-> k, st |-> "wait", onwire |-> FALSE])],
                  [e |-> "call", t |-> t, k |-> k])
     IN Commit(Send(s, t), IF k = "req" THEN "Q" ELSE "S")
  /\ UNCHANGED val

Attach(t) ==
  /\ call[t].k = "sub" /\ Len(cbs) < MaxCb
  /\ (Len(sock) < MaxSock \/ cur # 0 \/ pend = <<>>)
  /\ LET s == Log([S EXCEPT !.cbs = Append(@, [t |-> t, on |-> TRUE])], [e |-> "att", b |-> Len(cbs) + 1, t |-> t])
     IN Commit(IF pend # <<>> THEN Open(s) ELSE s, "A" \o ToString(t))
  /\ UNCHANGED val

Detach(b) ==
  /\ cbs[b].on
  /\ Commit(Unsubscribed(Log([S EXCEPT !.cbs[b].on = FALSE], [e |-> "det", b |-> b])), "D" \o ToString(b))
  /\ UNCHANGED val

\* events of a socket that is not the current one are ignored
SockOpen(i) ==
  /\ sock[i] = "connecting" /\ i = cur
  /\ Commit(Flush(Log([S EXCEPT !.sock[i] = "open", !.count = 0], [e |-> "sopen", i |-> i])), "o" \o ToString(i))
  /\ UNCHANGED val
SockFail(i) ==     \* error, then close
  /\ sock[i] = "connecting"
  /\ (Len(sock) < MaxSock)
  /\ LET s == Log([S EXCEPT !.sock[i] = "closed"], [e |-> "sfail", i |-> i])
     IN Commit(IF i = cur THEN Reopen([s EXCEPT !.cur = 0]) ELSE s, "f" \o ToString(i))
  /\ UNCHANGED val
SockClose(i) ==    \* closed by the peer, or the client's close() completes
  /\ sock[i] \in {"open", "dying", "closing"}
  /\ (Len(sock) < MaxSock \/ i # cur)
  /\ LET s == Log([S EXCEPT !.sock[i] = "closed"], [e |-> "sclose", i |-> i])
     IN Commit(IF i = cur THEN Reopen([s EXCEPT !.cur = 0]) ELSE s, "l" \o ToString(i))
  /\ UNCHANGED val

SockDying(i) ==    \* readyState has left OPEN, the close event is still to come
  /\ sock[i] = "open" /\ i = cur
  /\ Commit(Log([S EXCEPT !.sock[i] = "dying"], [e |-> "sdying", i |-> i]), "y" \o ToString(i))
  /\ UNCHANGED val

Frame(k, t) ==
  /\ cur # 0 /\ sock[cur] = "open" /\ val < MaxVal
  /\ IF t = 0 THEN Noise
     ELSE /\ t \in DOMAIN call /\ call[t].onwire
          /\ (k = "stream" <=> call[t].k = "sub")
  /\ (t # 0 /\ call[t].st # "wait" => Noise)
  /\ LET s == Log(S, [e |-> "frame", i |-> cur, k |-> k, t |-> t, x |-> val + 1])
         op == "m" \o (CASE k = "method" -> "M" [] k = "stream" -> "S" [] k = "error" -> "E") \o ToString(t)
     IN Commit(
          IF t # 0 /\ call[t].k = "req" /\ call[t].st = "wait"
          THEN Unsubscribed(Log([s EXCEPT !.call[t].st = "done"],
                 [e |-> "settle", t |-> t, h |-> IF k = "method" THEN "ok" ELSE "err", x |-> val + 1]))
          ELSE IF t # 0 /\ k = "stream"
          THEN [s EXCEPT !.ev = @ \o SelectSeq([b \in DOMAIN cbs |-> [e |-> "cb", b |-> b, x |-> val + 1]],
                                               LAMBDA e : cbs[e.b].on /\ cbs[e.b].t = t)]
          ELSE s, op)
  /\ val' = val + 1

Fire ==
  /\ timer # 0
  /\ Len(sock) < MaxSock
  /\ Commit(Open(Log([S EXCEPT !.timer = 0], [e |-> "fire"])), "t")
  /\ UNCHANGED val

\* with many calls, a few of them are considered at each step of a random walk
Some(X) == IF Cardinality(X) <= 40 THEN X ELSE RandomSubset(9, X)
Next ==
  /\ env < MaxEnv
  /\ IF Len(call) < Burst THEN (\E k \in {"req", "sub"} : DoCall(k)) \/ (\E i \in DOMAIN sock : SockOpen(i)) ELSE
     \/ \E k \in {"req", "sub"} : DoCall(k)
     \/ \E t \in Some(DOMAIN call) : Attach(t)
     \/ \E b \in DOMAIN cbs : Detach(b)
     \/ \E i \in DOMAIN sock : SockOpen(i) \/ SockFail(i) \/ SockClose(i) \/ SockDying(i)
     \/ \E k \in {"method", "stream", "error"}, t \in {0} \cup Some(DOMAIN call) : Frame(k, t)
     \/ Fire

Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
NoViolation == mon.viol = {}
OneSocket == Cardinality({i \in DOMAIN sock : sock[i] \in {"connecting", "open"}}) <= 1
CurLive == cur # 0 => sock[cur] \in {"connecting", "open", "dying"}
TimerXorSocket == ~(timer # 0 /\ cur # 0)
IdleClosed == (~Need(S) /\ timer # 0) = FALSE
PendOrder == \A i, j \in DOMAIN pend : i < j => pend[i] < pend[j]
Emitted == h' # h => PrintT("@@" \o h')
Ended == env = MaxEnv => PrintT("@@" \o h)
=============================================================================
