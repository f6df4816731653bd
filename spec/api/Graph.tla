-------------------------------- MODULE Graph --------------------------------
(* Types that refer to each other, in namespaces, through every container and kind of declaration, under every
   kind of name (G02).

   A behaviour writes declarations step by step; finished ones are printed with what the specification says of
   them: which references have to resolve in the client of which backend.                                  *)
EXTENDS SchemaTypes, Integers, Json, Randomization
CONSTANTS Family,     \* "pair": two types, completely; "any": random programs
          MaxTypes
VARIABLES g,          \* the program
          n,          \* how many types there are to be
          ph          \* "ns", "types", "fns", "done"
vars == <<g, n, ph>>

(* g.nss: names of the namespaces; g.types: [ns, ren, d (declaration)], referred to as T1, T2, ...;
   g.fns: [ns, name, kind, arg, out]; g.back: the namespaces of the second backend (the first has all);
   g.rc: types may not be sent between threads (and functions do not mention them)                          *)
Name(i) == "T" \o ToString(i)
Index == [s \in {Name(i) : i \in 1..MaxTypes} |-> CHOOSE i \in 1..MaxTypes : Name(i) = s]

RECURSIVE Keyable(_)
Keyable(T) == CASE T.k \in {"ref", "prim"} -> TRUE [] T.k \in {"opt", "vec", "arr"} -> Keyable(T.a)
                [] T.k = "tup" -> \A i \in DOMAIN T.s : Keyable(T.s[i])
                [] T.k = "wrap" -> T.w \in {"Box", "Arc"} /\ Keyable(T.a)
                [] OTHER -> FALSE
Containers(T, rc) ==
  {T, Opt(T), Vec(T), Tup(<<T>>), Tup(<<P("u8"), T>>), ArrN(T, 2), Res(T, P("String")), Res(P("u8"), T), Wrap("Box", T), Wrap("Arc", T), Wrap("PhantomData", T),
   MapT("HashMap", P("String"), T), MapT("BTreeMap", P("String"), T)}
  \union (IF Keyable(T) THEN {MapT("HashMap", T, P("u8")), SetT("HashSet", T), SetT("BTreeSet", T)} ELSE {})
  \union (IF T.k = "ref" THEN {Wrap("Cow", T)} ELSE {})
  \union (IF rc THEN {Wrap("Rc", T), Wrap("RefCell", T), Wrap("Mutex", T), Wrap("Weak", T)} ELSE {})

----------------------------------------------------------------------------
(* a walk chooses among a few *)
Some(S) == IF Family = "pair" \/ Cardinality(S) <= 2 THEN S ELSE RandomSubset(2, S)
(* What refers to what *)
RECURSIVE All(_), Inside(_), SameValue(_)
(* references of the schema *)
All(T) == CASE T.k = "prim" -> {} [] T.k = "ref" -> {T.d}
            [] T.k = "tup" -> UNION {All(T.s[i]) : i \in DOMAIN T.s}
            [] T.k \in {"res", "map"} -> All(T.a) \union All(T.b)
            [] T.k = "wrap" /\ T.w = "PhantomData" -> {}
            [] OTHER -> All(T.a)
(* contained without indirection: the size of one depends on the other's *)
Inside(T) == CASE T.k = "prim" -> {} [] T.k = "ref" -> {T.d}
               [] T.k = "tup" -> UNION {Inside(T.s[i]) : i \in DOMAIN T.s}
               [] T.k = "res" -> Inside(T.a) \union Inside(T.b)
               [] T.k \in {"opt", "arr"} -> Inside(T.a)
               [] T.k = "wrap" -> IF T.w \in {"Cow", "RefCell", "Mutex"} THEN Inside(T.a) ELSE {}
               [] OTHER -> {}
(* represented by the same value, not by a part of it *)
SameValue(T) == CASE T.k = "ref" -> {T.d} [] T.k = "opt" -> SameValue(T.a)
                  [] T.k = "wrap" -> IF T.w = "PhantomData" THEN {} ELSE SameValue(T.a)
                  [] OTHER -> {}
Types(d) == IF d.kind = "struct" THEN {d.fields[i].ty : i \in DOMAIN d.fields}
            ELSE UNION {{d.variants[i].fields[j].ty : j \in DOMAIN d.variants[i].fields} : i \in DOMAIN d.variants}
Live1(fs) == {fs[i] : i \in {i \in DOMAIN fs : ~Skipped(fs[i])}}
Refers(d) == IF d.conv # "" THEN All(d.via)
             ELSE IF d.kind = "struct" THEN UNION {All(f.ty) : f \in Live1(d.fields)}
             ELSE UNION {UNION {All(f.ty) : f \in Live1(v.fields)} : v \in {d.variants[i] : i \in {i \in DOMAIN d.variants : ~Skipped(d.variants[i])}}}
Same(d) == IF d.conv # "" THEN SameValue(d.via)
           ELSE IF d.kind = "struct"
                THEN IF d.transparent \/ (d.style = "tuple" /\ Len(d.fields) = 1) THEN SameValue(d.fields[1].ty) ELSE UNION {SameValue(f.ty) : f \in {f \in Live1(d.fields) : f.flat}}
                ELSE IF d.rep \in {"unt", "int"} THEN UNION {IF v.style = "tuple" /\ Len(v.fields) = 1 THEN SameValue(v.fields[1].ty) ELSE {} : v \in {d.variants[i] : i \in DOMAIN d.variants}}
                ELSE {}
Holds(d) == UNION {Inside(T) : T \in Types(d)}

D(s) == g.types[Index[s]].d
Known == {Name(i) : i \in DOMAIN g.types}
RECURSIVE Reach(_, _, _)
Reach(S, step(_), k) == IF k = 0 THEN S ELSE Reach(S \union UNION {step(s) \intersect Known : s \in S}, step, k - 1)
Acyclic(step(_)) == \A s \in Known : s \notin Reach(step(s) \intersect Known, step, Len(g.types))
HoldsS(s) == Holds(D(s))
SameS(s) == Same(D(s))
Finite1 == Acyclic(HoldsS) /\ Acyclic(SameS)

----------------------------------------------------------------------------
(* Names *)
NsNames == {"Alpha", "Beta", "lower", "Gamma_2", "@uml"}
OddNames == {"", "", "ke-bab", "a b", "@q", "@bs", "@nl", "1x", "class", "@uml", "$y", "default", "constructor"}
Ids == << <<W1>>, <<W1, W2>>, <<W3>>, <<W4>>, <<W5, W1>> >>
TypeNames == {"", "Item", "lowercase", "Ok", "Item2", "Data", "State", "Node", "Leaf", "item_2", "Alpha", "Foo", "Bar", "@uml", "@ns1", "@ns2", "Array", "Map"}
TsName(i) == IF g.types[i].ren = "" THEN Name(i) ELSE IF g.types[i].ren = "@ns1" THEN "@" \o g.nss[1] ELSE IF g.types[i].ren = "@ns2" THEN "@" \o g.nss[Len(g.nss)] ELSE g.types[i].ren

FF(id, T, ren) == F(id, T, ren, "", "") @@ [flat |-> FALSE]
(* a declaration with one reference *)
Kinds == {"named", "newtype", "tuple", "transparent", "from", "flat", "ext-newtype", "ext-tuple", "ext-struct", "int-newtype", "int-struct", "adj-newtype", "adj-struct", "unt-newtype", "unt-struct", "unt-tuple"}
Unit == V(<<W3>>, "unit", <<>>)
Make(k, T, ren) ==
  LET one == FF(<<W1, W2>>, T, "")
      named == FF(<<W1, W2>>, T, ren)
      more == FF(<<W5>>, P("bool"), "")
      en(rep, v) == Enum(rep, <<v, Unit>>)
  IN CASE k = "named" -> Struct("named", <<named, more>>)
       [] k = "newtype" -> Struct("tuple", <<one>>)
       [] k = "tuple" -> Struct("tuple", <<one, more>>)
       [] k = "transparent" -> [Struct("named", <<one>>) EXCEPT !.transparent = TRUE]
       [] k = "from" -> [Struct("named", <<more>>) EXCEPT !.conv = "from", !.via = T]
       [] k = "flat" -> Struct("named", <<more, [one EXCEPT !.flat = TRUE]>>)
       [] k = "ext-newtype" -> en("ext", V(<<W2>>, "tuple", <<one>>))
       [] k = "ext-tuple" -> en("ext", V(<<W2>>, "tuple", <<one, more>>))
       [] k = "ext-struct" -> en("ext", V(<<W2>>, "struct", <<named>>))
       [] k = "int-newtype" -> en("int", V(<<W2>>, "tuple", <<one>>))
       [] k = "int-struct" -> en("int", V(<<W2>>, "struct", <<named>>))
       [] k = "adj-newtype" -> en("adj", V(<<W2>>, "tuple", <<one>>))
       [] k = "adj-struct" -> en("adj", V(<<W2>>, "struct", <<named, more>>))
       [] k = "unt-newtype" -> en("unt", V(<<W2>>, "tuple", <<one>>))
       [] k = "unt-struct" -> en("unt", V(<<W2>>, "struct", <<named>>))
       [] k = "unt-tuple" -> en("unt", V(<<W2>>, "tuple", <<one, more>>))
(* serde: what is flattened or internally tagged has to be something with members *)
RECURSIVE Mergeable(_, _)
Mergeable(T, rc) == T.k = "ref" \/ (T.k = "wrap" /\ T.w \in {"Box", "Arc"} /\ Mergeable(T.a, rc))
Fit(k, T) == /\ k = "transparent" => ~(T.k = "wrap" /\ T.w = "PhantomData")
             /\ k \in {"flat", "int-newtype"} => Mergeable(T, TRUE)

----------------------------------------------------------------------------
Init == /\ ph = "ns"
        /\ IF Family = "pair" THEN n = 2 ELSE n \in 2..MaxTypes
        /\ g = [nss |-> <<>>, types |-> <<>>, fns |-> <<>>, back |-> {}, rc |-> FALSE]
AddNs == /\ ph = "ns" /\ Len(g.nss) < (IF Family = "pair" THEN 2 ELSE 3)
         /\ \E w \in (IF Family = "pair" THEN {<<"Alpha", "Beta">>[Len(g.nss) + 1]} ELSE NsNames \ {g.nss[i] : i \in DOMAIN g.nss}) :
              g' = [g EXCEPT !.nss = Append(@, w)]
         /\ UNCHANGED <<n, ph>>
StartTypes == /\ ph = "ns" /\ Len(g.nss) >= 1 /\ (Family = "pair" => Len(g.nss) = 2)
              /\ \E b \in SUBSET (DOMAIN g.nss), rc \in BOOLEAN :
                   /\ b # {}
                   /\ Family = "pair" => b = {1}
                   /\ g' = [g EXCEPT !.back = b, !.rc = rc]
              /\ ph' = "types"
              /\ UNCHANGED n
(* one namespace contains no two types of one name *)
Distinct == \A i, j \in DOMAIN g.types : i # j /\ g.types[i].ns = g.types[j].ns => TsName(i) # TsName(j)
AddType == /\ ph = "types" /\ Len(g.types) < n
           /\ LET me == Len(g.types) + 1
              IN \E k \in Some(Kinds), ns \in Some(DOMAIN g.nss), j \in Some(1..n), ren \in (IF Family = "pair" THEN {""} ELSE Some(TypeNames)), m \in (IF Family = "pair" THEN {""} ELSE Some(OddNames)) :
                 /\ Family = "pair" => j = 3 - me /\ ren = "" /\ m = "" /\ (me = 1 => ns = 1)
                 /\ \E T \in Some(Containers(Ref(Name(j)), g.rc)) : \E U \in (IF Family = "pair" THEN {T} ELSE Some({T} \union Containers(T, g.rc))) :
                    /\ Fit(k, U)
                    /\ g' = [g EXCEPT !.types = Append(@, [ns |-> ns, ren |-> ren, d |-> Make(k, U, m)])]
           /\ (Distinct /\ Finite1)'
           /\ UNCHANGED <<n, ph>>
(* another member of a struct, another variant of an enum *)
AddMember ==
  /\ Family = "any" /\ ph = "types" /\ Len(g.types) = n
  /\ \E i \in Some(DOMAIN g.types), j \in Some(1..n) : \E T \in Some(Containers(Ref(Name(j)), g.rc) \union {P("u8"), P("char")}), m \in Some(OddNames), skip \in {"", "skip"}, dflt \in {"", "default"} :
       LET d == g.types[i].d
           k == IF d.kind = "struct" THEN Len(d.fields) + 1 ELSE Len(d.variants) + 1
           f == [FF(Ids[k], T, m) EXCEPT !.skip = skip, !.dflt = dflt]
       IN /\ d.conv = "" /\ k <= Len(Ids)
          /\ IF d.kind = "struct"
             THEN /\ d.style = "named" /\ ~d.transparent
                  /\ \A x \in DOMAIN d.fields : d.fields[x].id # f.id /\ FName(d.fields[x], "") # FName(f, "")
                  /\ g' = [g EXCEPT !.types[i].d.fields = Append(@, f)]
             ELSE /\ \A x \in DOMAIN d.variants : d.variants[x].id # Ids[k] /\ VName(d.variants[x], "") # m
                  /\ g' = [g EXCEPT !.types[i].d.variants = Append(@, [V(Ids[k], "struct", <<[f EXCEPT !.ren = ""]>>) EXCEPT !.ren = m])]
  /\ Finite1'
  /\ UNCHANGED <<n, ph>>
Attribute ==
  /\ Family = "any" /\ ph = "types" /\ Len(g.types) = n
  /\ \E i \in DOMAIN g.types :
       LET d == g.types[i].d
       IN IF d.kind = "struct"
          THEN d.style = "named" /\ ~d.transparent /\ d.conv = "" /\ (\A x \in DOMAIN d.fields : d.fields[x].ren = "") /\ \E r \in Rules : g' = [g EXCEPT !.types[i].d.all = r]
          ELSE \E t \in {"kind", "ta-g", "@q"} : d.rep \in {"int", "adj"} /\ g' = [g EXCEPT !.types[i].d.tag = t]
  /\ UNCHANGED <<n, ph>>
StartFns == /\ ph = "types" /\ Len(g.types) = n
            /\ ph' = IF Family = "pair" THEN "done" ELSE "fns"
            /\ UNCHANGED <<g, n>>
AddFn == /\ ph = "fns" /\ Len(g.fns) < 4
         /\ \E ns \in DOMAIN g.nss, k \in {"method", "stream"}, i, j \in 1..n, nm \in {"go", "run_it", "Item", "T1", "lower"} :
              /\ \A f \in Range(g.fns) : ~(f.ns = ns /\ f.name = nm)
              /\ \E T \in Some(Containers(Ref(Name(i)), FALSE)), U \in Some(Containers(Ref(Name(j)), FALSE)) :
                   g' = [g EXCEPT !.fns = Append(@, [ns |-> ns, name |-> nm, kind |-> k, arg |-> IF g.rc THEN P("u8") ELSE T, out |-> IF g.rc THEN P("u8") ELSE U])]
         /\ UNCHANGED <<n, ph>>
Finish == /\ ph = "fns" /\ ph' = "done"
          /\ UNCHANGED <<g, n>>
Next == AddNs \/ StartTypes \/ AddType \/ AddMember \/ Attribute \/ StartFns \/ AddFn \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The references in the schemas of namespace a to namespace b: <<a, b, type>> *)
FnRefs(f) == All(f.arg)
Links == {<<g.types[i].ns, g.types[Index[r]].ns, Index[r]>> : <<i, r>> \in UNION {{<<i, r>> : r \in Refers(g.types[i].d)} : i \in DOMAIN g.types}}
         \union UNION {{<<g.fns[i].ns, g.types[Index[r]].ns, Index[r]>> : r \in FnRefs(g.fns[i])} : i \in DOMAIN g.fns}
(* listed as findings: what is declared in a namespace hides what else has that name *)
Hidden == {<<a, b>> \in (DOMAIN g.nss) \X (DOMAIN g.nss) : \E i \in DOMAIN g.types : g.types[i].ns = a /\ TsName(i) = "@" \o g.nss[b]}
Clash == {<<g.fns[i].ns, g.fns[i].name>> : i \in {i \in DOMAIN g.fns : \E j \in DOMAIN g.types : g.types[j].ns = g.fns[i].ns /\ TsName(j) = g.fns[i].name}}
Globals == {<<g.types[i].ns, g.types[i].ren>> : i \in {i \in DOMAIN g.types : g.types[i].ren \in {"Array", "Map"}}}
(* the model: all references are to types there are *)
Model == ph \in {"fns", "done"} => \A l \in Links : l[3] \in DOMAIN g.types
Emit == ph = "done" => PrintT("@@" \o ToJson([p |-> g, links |-> SetToSeq(Links), hidden |-> SetToSeq(Hidden), clash |-> SetToSeq(Clash), globals |-> SetToSeq(Globals),
                                              names |-> [i \in DOMAIN g.types |-> TsName(i)]]))
=============================================================================
