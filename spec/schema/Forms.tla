------------------------------- MODULE Forms -------------------------------
(* Which declarations are supported and which must be rejected at compile time (S05).

   The state is a declaration being written, each step adds a part of it.  Every reachable declaration is
   printed with the verdict of `Verdict`:
     yes   within the supported forms: must compile
     no    cannot be represented on the TypeScript side: must not compile
     any   neither is promised                                                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Wide
VARIABLES f, done

Marks == {"req", "default", "skip"} \union (IF Wide THEN {"path", "skip_de", "skip_ser"} ELSE {})
Skips == {"", "skip", "skip_de", "skip_ser"}
Receivers == {"none", "self", "&self", "mut self", "&mut self", "&'a mut self"}
(* what a method returns *)
Outs == {"nothing", "u8", "String", "impl Stream", "BoxStream", "unit", "Vec<Point>", "NoZod"}
ArgTypes == {"u8", "String", "Point", "NoZod"}
TypeNames == {"Aa", "Bb"}
Renames == {"", "Aa", "Bb", "Cc", "type", "z", "request", "Aa-Bb", "1a", "a b", "@uml", "$a"}
MethodNames == {"go", "r#match", "r#type", "delete", "new", "z", "request", "subscribe", "default", "one_two", "Go", "r#in", "r#for", "function", "var", "void", "arguments", "r#await", "eval", "get", "call"}
ArgNames == {"x", "r#type", "r#match", "delete", "new", "z", "request", "subscribe", "default", "r#in", "function", "arguments", "_x", "get", "data"}
(* the names of namespaces: of the type, or given *)
NsNames == {"", "Ok", "One_2", "@uml", "ke-bab", "a b", "1a", "z", "request", "subscribe", "default", "class", "delete", "CONNECTION", "req_id", "websocketStore",
            "execute", "WS_ADDR", "Set", "Map", "Promise", "JSON", "WebSocket", "setTimeout", "console", "lower", "Point"}

Init == f = [kind |-> "nothing"] /\ done = FALSE
Begin ==
  /\ f.kind = "nothing"
  /\ f' \in {[kind |-> "tuple", cdef |-> FALSE, marks |-> <<>>]}
            \union {[kind |-> "enum", rep |-> r, skips |-> <<>>] : r \in {"ext", "int", "adj", "unt"}}
            \union {[kind |-> "empty", style |-> s, attr |-> a, ns |-> n] :
                      s \in {"unit", "tuple0", "named0", "newtype", "named1", "enum1"},
                      a \in {"", "from", "try_from", "transparent", "from_unit"}, n \in {"given", "missing", "unknown"}}
            \union {[kind |-> "names", types |-> <<>>]}
            \union {[kind |-> "rpc", recv |-> r, async |-> a, out |-> o, args |-> <<>>, name |-> "go"] :
                      r \in Receivers, a \in BOOLEAN, o \in Outs}
            \union {[kind |-> "rpc", recv |-> "&mut self", async |-> TRUE, out |-> "u8", args |-> <<>>, name |-> n] : n \in MethodNames}
            \union {[kind |-> "arg", name |-> n, stream |-> a, at |-> i] : n \in ArgNames, a \in BOOLEAN, i \in 0..1}
            \union {[kind |-> "ns", rust |-> r, name |-> n, with |-> w] : r \in {"Alpha", "Map", "r#type", "CONNECTION"}, n \in NsNames, w \in {"types", "fns"}}
            \union {[kind |-> "backend", style |-> s, parts |-> <<>>] : s \in {"named", "tuple"}}
Extend ==
  CASE f.kind = "tuple" ->
         \/ Len(f.marks) < MaxLen /\ \E m \in Marks : f' = [f EXCEPT !.marks = Append(@, m)]
         \/ ~f.cdef /\ f.marks # <<>> /\ f' = [f EXCEPT !.cdef = TRUE]
    [] f.kind = "enum" -> Len(f.skips) < MaxLen /\ \E s \in Skips : f' = [f EXCEPT !.skips = Append(@, s)]
    [] f.kind = "names" ->
         Len(f.types) < 2 /\ \E t \in TypeNames, r \in Renames, n \in {"N1", "N2"}, k \in {"struct", "enum", "newtype"} :
           /\ k # "struct" => (r = "Aa" \/ (f.types = <<>> /\ r # ""))
           /\ \A i \in DOMAIN f.types : f.types[i].rust # t
           /\ f.types = <<>> => t = "Aa"
           /\ f' = [f EXCEPT !.types = Append(@, [rust |-> t, ren |-> r, ns |-> n, k |-> k])]
    [] f.kind = "rpc" ->
         /\ Len(f.args) < (IF f.name = "go" /\ f.recv = "&mut self" THEN 2 ELSE 0)
         /\ \E a \in ArgTypes : f' = [f EXCEPT !.args = Append(@, a)]
    [] f.kind = "backend" -> Len(f.parts) < 3 /\ \E p \in {"N1", "N2", "N3", "sub::N1", "sub::N4", "u8", "Bare"} : f' = [f EXCEPT !.parts = Append(@, p)]
    [] OTHER -> FALSE
Next == (Begin \/ (f.kind # "nothing" /\ Extend)) /\ UNCHANGED done
Spec == Init /\ [][Next]_<<f, done>>

----------------------------------------------------------------------------
Skipped(m) == m \in {"skip", "skip_de"}
Active(ms) == SelectSeq(ms, LAMBDA m : ~Skipped(m))
Defaulted(m) == m \in {"default", "path"}
TailOk(ms) == \A i, j \in DOMAIN ms : (i < j /\ Defaulted(ms[i])) => Defaulted(ms[j])
YesNo(b) == IF b THEN "yes" ELSE "no"

TsName(t) == IF t.ren = "" THEN t.rust ELSE t.ren
(* what a type of the client may be called *)
GoodName(n) == n \in {"Aa", "Bb", "Cc", "@uml"}
OddName(n) == n \in {"$a", "type"}       \* legal in TypeScript, but not supported
Clash == \E i, j \in DOMAIN f.types : i # j /\ f.types[i].ns = f.types[j].ns /\ TsName(f.types[i]) = TsName(f.types[j])

(* names that cannot be declared in TypeScript, or already mean something in the client *)
Unwritable == {"delete", "new", "default", "r#in", "r#for", "function", "var", "void", "arguments", "r#await", "eval", "class", "ke-bab", "a b", "1a"}
Taken == {"z", "request", "subscribe", "CONNECTION", "req_id", "websocketStore", "execute", "WS_ADDR"}
Globals == {"Set", "Map", "Promise", "JSON", "WebSocket", "setTimeout", "console"}
(* what the client calls a namespace; sub::N1 is called Fourth, sub::N4 is called N1 *)
WireOf(p) == CASE p = "sub::N1" -> "Fourth" [] p = "sub::N4" -> "N1" [] OTHER -> p
Streams == {"impl Stream", "BoxStream"}
Values == {"nothing", "unit", "u8", "String", "Vec<Point>"}
RpcOk ==
  /\ f.recv = "&mut self"
  /\ IF f.async THEN f.out \in Values ELSE f.out \in Streams
  /\ f.name \notin Unwritable \union {"z", "request", "subscribe"}
  /\ \A i \in DOMAIN f.args : f.args[i] # "NoZod"

Verdict ==
  CASE f.kind = "nothing" -> "any"
    [] f.kind = "tuple" -> CASE Len(f.marks) <= 1 -> "any"
                             [] Active(f.marks) = <<>> -> "any"
                             [] f.cdef -> "any"
                             [] OTHER -> YesNo(TailOk(Active(f.marks)))
    [] f.kind = "enum" -> YesNo(\E i \in DOMAIN f.skips : ~Skipped(f.skips[i]))
    [] f.kind = "empty" ->
         CASE f.ns # "given" -> "no"
           [] f.style = "unit" -> "no"
           [] f.style \in {"tuple0", "named0"} -> "any"
           [] f.attr = "transparent" /\ f.style = "enum1" -> "any"
           [] OTHER -> "yes"
    [] f.kind = "names" -> IF f.types = <<>> THEN "any"
                           ELSE CASE \E i \in DOMAIN f.types : ~GoodName(TsName(f.types[i])) /\ ~OddName(TsName(f.types[i])) -> "no"
                                  [] \E i \in DOMAIN f.types : OddName(TsName(f.types[i])) -> "any"
                                  [] OTHER -> YesNo(~Clash)
    [] f.kind = "rpc" -> YesNo(RpcOk)
    [] f.kind = "arg" -> "yes"        \* parameters go by position: the client may give them another name
    [] f.kind = "ns" -> LET n == IF f.name = "" THEN f.rust ELSE f.name
                        IN CASE n = "r#type" -> "any"        \* legal in TypeScript
                             [] OTHER -> YesNo(n \notin Unwritable \union Taken \union Globals)
    [] f.kind = "backend" ->
         CASE f.parts = <<>> -> "any"
           [] \E i \in DOMAIN f.parts : f.parts[i] = "u8" -> "no"
           [] \E i \in DOMAIN f.parts : f.parts[i] = "Bare" -> "any"
           [] \E i, j \in DOMAIN f.parts : i # j /\ WireOf(f.parts[i]) = WireOf(f.parts[j]) -> "no"
           [] OTHER -> "yes"

Emit == PrintT("@@" \o ToJson([f |-> f, v |-> Verdict]))
=============================================================================
