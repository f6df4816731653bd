---------------------------- MODULE SchemaProbe ----------------------------
(* Evaluates the specification on declarations that SchemaGen generated: the values to try on each, and what
   SchemaTypes says of them.  The declarations are spread over Chunks states, so that TLC's workers share them. *)
EXTENDS SchemaTypes, Integers, Json, IOUtils
CONSTANTS Depth, Chunks
VARIABLES c, i
Cases == ndJsonDeserialize(IOEnv.CASES)
ASSUME TLCSet(1, Cases)
Decls == TLCGet(1)
Init == c = 0 /\ i = 0
Next == \/ c = 0 /\ c' \in 1..Chunks /\ i' = 0
        \/ c > 0 /\ i = 0 /\ UNCHANGED c /\ i' \in {j \in DOMAIN Decls : j % Chunks = c - 1}
Spec == Init /\ [][Next]_<<c, i>>

IsDecl(d) == "kind" \in DOMAIN d
Probes(d) == IF IsDecl(d) THEN ProbesD(d, Depth) ELSE ProbesT(d, Depth)

(* consistency of the specification itself: what is in the representation is accepted and has the right shape *)
RECURSIVE Plain(_)
Plain(v) == CASE v.t = "arr" -> \A k \in DOMAIN v.e : Plain(v.e[k]) [] v.t = "obj" -> \A k \in DOMAIN v.m : Plain(v.m[k][2])
              [] v.t \in {"set", "map"} -> FALSE [] OTHER -> TRUE
Consistent(b) == /\ b.rep => b.shape
                 /\ b.rep /\ Plain(b.v) => b.acc
Evaluated == i > 0 =>
  LET ps == Probes(Decls[i].d)
  IN /\ PrintT("@@" \o ToJson([n |-> Decls[i].n, p |-> SetToSeq(ps)]))
     /\ \A b \in ps : Consistent(b)
=============================================================================
