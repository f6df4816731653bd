---------------------------- MODULE ServerTrace ----------------------------
(* Judges recorded executions (ndjson: {n, ev}) with the observer.  One TLC  *)
(* state per execution; the verdicts are printed as "@@<n> <kind> <c> <t>". *)
EXTENDS RpcMonitor, Json, IOUtils, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE l
Verdict(tr) == FoldLeft(MonStep, MonInit, tr.ev).viol
Judge(tr) ==
  \A v \in Verdict(tr) :
     PrintT("@@" \o ToString(tr.n) \o " " \o v[1] \o " " \o ToString(v[2]) \o " " \o ToString(v[3]))
Init == l = 0
Next == l < Len(Traces) /\ l' = l + 1 /\ Judge(Traces[l + 1])
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Traces)
=============================================================================
