---------------------------- MODULE ClientTrace ----------------------------
(* Judges recorded executions of the generated client: "@@<n> <what>" *)
EXTENDS ClientMonitor, Json, IOUtils, SequencesExt
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLE l
Judge(tr) ==
  \A v \in FoldLeft(MonStep, MonInit, tr.ev).viol : PrintT("@@" \o ToString(tr.n) \o " " \o v)
Init == l = 0
Next == l < Len(Traces) /\ l' = l + 1 /\ Judge(Traces[l + 1])
Spec == Init /\ [][Next]_l
Done == TLCGet("stats").diameter - 1 = Len(Traces)
=============================================================================
