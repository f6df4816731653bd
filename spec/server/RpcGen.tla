------------------------------- MODULE RpcGen -------------------------------
(* Generates schedules: one per transition of the environment in the        *)
(* scheduled state graph (the path TLC found to its source, plus the action) *)
EXTENDS RpcServer
Emitted == h' # h => PrintT("@@" \o h')
\* symmetry: connections and ids are introduced in order
Canon == \A i \in DOMAIN req :
           \/ req[i].k = "garbage"
           \/ \A id \in Ids : id < req[i].id => \E j \in 1..(i-1) : req[j].id = id /\ req[j].k # "garbage"
=============================================================================
