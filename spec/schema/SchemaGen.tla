------------------------------ MODULE SchemaGen ------------------------------
(* Builds declarations step by step, the way a programmer would extend one, and prints every reachable one;
   SchemaProbe then adds the values to try on it and the verdicts of SchemaTypes.

   The state is the declaration being written; each action adds a part or sets an attribute.  `Fam` selects
   what may be written; breadth-first search then enumerates the family completely, simulation samples
   larger declarations.                                                                                  *)
EXTENDS SchemaTypes, Integers, Json
CONSTANTS Fam,        \* name of the family
          MaxFields, MaxVariants,
          Level       \* how many attributes may be set at once
VARIABLES d, used     \* used: number of attributes set

AllPrims == [i \in 1..19 |-> P(<<"bool", "String", "char", "unit", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32",
                                "i64", "isize", "f32", "f64", "Ipv4Addr", "Ipv6Addr", "IpAddr">>[i])]
Wraps == {"Box", "Arc", "Rc", "Cow", "Cell", "RefCell", "Mutex", "Weak", "PhantomData"}
Base == {AllPrims[i] : i \in DOMAIN AllPrims} \union {P("u128"), P("i128")}
Refs == {Ref("Point"), Ref("Color"), Ref("Node"), Ref("Meters"), Ref("Pair"), Ref("Tree"), Ref("Even")}
(* what a type may be wrapped into; Copy types only for Cell *)
CopyT(T) == T.k = "prim" /\ T.n # "String"
HashT(T) == T.k = "prim" /\ T.n \notin {"f32", "f64"}
Around(T) ==
  {Opt(T), Vec(T), Tup(<<T>>), Tup(<<T, P("String")>>), Tup(<<P("bool"), T>>), Res(T, P("String")), Res(P("u8"), T), ArrN(T, 2)}
  \union {Wrap(w, T) : w \in Wraps \ ((IF CopyT(T) THEN {} ELSE {"Cell"}) \union (IF T.k \in {"prim", "ref"} THEN {} ELSE {"Cow"}))}
  \union (IF HashT(T) THEN {SetT("HashSet", T), SetT("BTreeSet", T), MapT("HashMap", T, P("u8")), MapT("BTreeMap", P("String"), T)} ELSE {})
Tuples == {Tup([i \in 1..n |-> AllPrims[((i * 7) % 17) + 1]]) : n \in 3..30}    \* serde knows tuples up to 16
Arrays == {ArrN(P("u8"), n) : n \in {0, 1, 3, 7}}

----------------------------------------------------------------------------
Ids == << <<W1, W2>>, <<W3>>, <<W4>>, <<W5, W1, W3>> >>
VIds == << <<W2, W3>>, <<W1>>, <<W5, W2>>, <<W3>> >>
FTypes == << P("u8"), P("String"), Opt(P("bool")), Ref("Point"), Vec(P("i8")), Ref("Color"), Wrap("Box", Ref("Node")), Tup(<<P("u8"), P("char")>>) >>
(* types whose members can be those of another struct: Point, Even, Node, Tree, alone or in a pointer *)
FlatTypes == << Ref("Point"), Ref("Even"), Wrap("Box", Ref("Node")), Ref("Tree"), Wrap("Arc", Ref("Point")) >>
SafeTypes == << P("u8"), P("String"), Opt(P("bool")), Ref("Point") >>
Names == {"renamed", "ke-bab", "@q"}

IsStruct == Fam \in {"struct", "struct2", "structsim", "flat"}
IsEnum == Fam \in {"enum", "enum2", "enumsim"}
Begun == used >= 0
Init == used = -1 /\ d = 0
Begin ==
  /\ ~Begun
  /\ used' = 0
  /\ CASE Fam = "types" -> d' \in Base \union Refs \union (UNION {Around(T) : T \in Base \union Refs}) \union Tuples \union Arrays
       [] Fam = "types2" -> d' \in (UNION {Around(T) : T \in {P("u8"), P("String")}})
       [] Fam = "typesim" -> d' \in Base \union Refs
       [] IsStruct -> d' \in {Struct("named", <<Field(Ids[1], FTypes[1])>>), Struct("tuple", <<Field(Ids[1], FTypes[1])>>)}
       [] IsEnum -> \E r \in {"ext", "int", "adj", "unt"} : d' = Enum(r, <<V(VIds[1], "unit", <<>>)>>)

(* types: wrap what there is *)
Deeper == /\ Fam \in {"types2", "typesim"} /\ used < Level
          /\ used' = used + 1
          /\ d' \in Around(d)

(* structs *)
Seal == d.kind = "struct" /\ (d.transparent \/ d.conv # "")
AddField == /\ IsStruct /\ ~Seal /\ Len(d.fields) < MaxFields
            /\ \E i \in 1..(IF Fam = "structsim" THEN Len(FTypes) ELSE 2) :
               LET n == Len(d.fields) + 1
               IN d' = [d EXCEPT !.fields = Append(@, Field(Ids[n], FTypes[IF Fam = "structsim" THEN i ELSE ((n + i * 3) % Len(FTypes)) + 1]))]
            /\ UNCHANGED used
(* attributes of the fields of a record x with fields; f is the list *)
FieldAttrs(f, named) ==
  (UNION {IF f[i].flat THEN {} ELSE
         (IF named /\ f[i].ren = "" THEN {[f EXCEPT ![i].ren = nm, ![i].dir = dir] : nm \in {x \in Names : \A j \in DOMAIN f : f[j].ren # x}, dir \in {"", "de"}} ELSE {})
         \union (IF f[i].skip = "" THEN {[f EXCEPT ![i].skip = s] : s \in {"skip", "skip_de", "skip_ser"}} ELSE {})
         \union (IF f[i].dflt = "" THEN {[f EXCEPT ![i].dflt = s] : s \in {"default", "path"}} ELSE {}) : i \in DOMAIN f})
AddFlat ==  /\ Fam = "flat" /\ d.style = "named" /\ ~Seal /\ Len(d.fields) < MaxFields
            /\ \E i \in DOMAIN FlatTypes : d' = [d EXCEPT !.fields = Append(@, [Field(Ids[Len(d.fields) + 1], FlatTypes[i]) EXCEPT !.flat = TRUE])]
            /\ UNCHANGED used
StructAttr ==
  /\ IsStruct /\ ~Seal /\ used < Level
  /\ used' = used + 1
  /\ \/ \E g \in FieldAttrs(d.fields, d.style = "named") : d' = [d EXCEPT !.fields = g]
     \/ d.all = "" /\ d.style = "named" /\ \E r \in Rules, dir \in {"", "de"} : d' = [d EXCEPT !.all = r, !.alldir = dir]
     \/ ~d.cdef /\ d.style = "named" /\ Fam # "flat" /\ d' = [d EXCEPT !.cdef = TRUE]
     \/ Len(d.fields) = 1 /\ d.fields = <<Field(Ids[1], FTypes[1])>> /\ d.all = "" /\ ~d.cdef
        /\ \E T \in {FTypes[i] : i \in DOMAIN FTypes} \union {Res(P("u8"), P("String")), Opt(Opt(P("u8")))} :
             \/ d' = [d EXCEPT !.transparent = TRUE, !.fields = <<Field(Ids[1], T)>>]
             \/ \E c \in {"from", "try_from"} : d' = [d EXCEPT !.conv = c, !.via = T]

(* enums: the last variant is the one being written *)
LastV == d.variants[Len(d.variants)]
PutV(v) == [d EXCEPT !.variants = [@ EXCEPT ![Len(@)] = v]]
AddVariant == /\ IsEnum /\ d.conv = "" /\ Len(d.variants) < MaxVariants
              /\ d' = [d EXCEPT !.variants = Append(@, V(VIds[Len(d.variants) + 1], "unit", <<>>))]
              /\ UNCHANGED used
(* internally tagged: no tuples, a newtype must be a struct *)
MayTuple == d.rep # "int"
Shapes ==
  LET n == Len(d.variants)
      T(i) == FTypes[((n * 3 + i) % Len(FTypes)) + 1]
      field(i) == Field(IF d.rep = "int" /\ i = 3 THEN Ids[4] ELSE Ids[i], T(i))
  IN {<<"struct", <<field(1)>>>>, <<"struct", <<field(1), field(2)>>>>, <<"struct", <<>>>>}
     \union (IF MayTuple THEN {<<"tuple", <<field(1)>>>>, <<"tuple", <<field(2), field(1)>>>>} ELSE {})
     \union (IF d.rep = "int" THEN {<<"tuple", <<Field(Ids[1], x)>>>> : x \in {Ref("Point"), Ref("Even"), Wrap("Box", Ref("Node"))}} ELSE {})
SetShape == /\ IsEnum /\ d.conv = "" /\ LastV.style = "unit" /\ LastV.ren = "" /\ LastV.skip = "" /\ LastV.all = ""
            /\ \E s \in Shapes : d' = PutV([LastV EXCEPT !.style = s[1], !.fields = s[2]])
            /\ UNCHANGED used
EnumAttr ==
  /\ IsEnum /\ d.conv = "" /\ used < Level
  /\ used' = used + 1
  /\ LET v == LastV
     IN \/ v.ren = "" /\ \E nm \in Names : (\A i \in DOMAIN d.variants : d.variants[i].ren # nm) /\ \E dir \in {"", "de"} : d' = PutV([v EXCEPT !.ren = nm, !.dir = dir])
        \/ v.skip = "" /\ \E s \in {"skip", "skip_de", "skip_ser"} : d' = PutV([v EXCEPT !.skip = s])
        \/ v.style = "struct" /\ v.fields # <<>> /\ v.all = "" /\ \E r \in Rules, dir \in {"", "de"} : d' = PutV([v EXCEPT !.all = r, !.alldir = dir])
        \/ v.fields # <<>> /\ \E g \in FieldAttrs(v.fields, v.style = "struct") : d' = PutV([v EXCEPT !.fields = g])
        \/ d.all = "" /\ \E r \in Rules, dir \in {"", "de"} : d' = [d EXCEPT !.all = r, !.alldir = dir]
        \/ d.rep \in {"int", "adj"} /\ d.tag = "type" /\ \E t \in {"kind", "ta-g", "@q"} : d' = [d EXCEPT !.tag = t]
        \/ d.rep = "adj" /\ d.content = "content" /\ \E t \in {"c", "con-tent"} : d' = [d EXCEPT !.content = t]
        \/ d.variants = <<V(VIds[1], "unit", <<>>)>> /\ d.rep = "ext" /\ d.all = ""
           /\ \E T \in {FTypes[i] : i \in DOMAIN FTypes}, c \in {"from", "try_from"} : d' = [d EXCEPT !.conv = c, !.via = T]

Extend == Deeper \/ (IsStruct /\ (AddField \/ AddFlat \/ StructAttr)) \/ (IsEnum /\ (AddVariant \/ SetShape \/ EnumAttr))
Next == Begin \/ (Begun /\ Extend)
Spec == Init /\ [][Next]_<<d, used>>

----------------------------------------------------------------------------
(* what the supported forms exclude, and what is listed as a finding of its own *)
TupleFields(x) == Form(x.style, x.fields) \in {"tuple", "newtype"}
(* a required element after a defaulted one is rejected by the derive *)
TailOk(fs) == \A i, j \in DOMAIN fs : (i < j /\ fs[i].dflt # "") => fs[j].dflt # ""
NoDup(names) == \A i, j \in DOMAIN names : i # j => names[i] # names[j]
OkStruct(s) ==
  /\ s.style = "tuple" => Active(s.fields) # <<>> /\ (s.cdef \/ TailOk(Active(s.fields)))
  /\ s.style = "named" => NoDup([i \in DOMAIN Plains(Active(s.fields)) |-> FName(Plains(Active(s.fields))[i], s.all)])
  \* nothing is flattened onto a member of the same name
  /\ LET qs == Flats(s.fields)
         ps == Plains(s.fields)
     IN \A i \in DOMAIN qs :
        /\ \A j \in DOMAIN qs : i # j => Spread(qs[i].ty) \intersect Spread(qs[j].ty) = {}
        /\ \A j \in DOMAIN ps : FName(ps[j], s.all) \notin Spread(qs[i].ty)
OkVariant(v) ==
  v.style = "struct" => NoDup([i \in DOMAIN Active(v.fields) |-> FName(Active(v.fields)[i], v.all)])
OkEnum ==
  /\ Live(d) # <<>>
  /\ NoDup([i \in DOMAIN Live(d) |-> VName(Live(d)[i], d.all)])
  /\ \A i \in DOMAIN d.variants : OkVariant(d.variants[i])
  \* serde itself does not read back a skipped newtype of an adjacently tagged enum
  /\ d.rep = "adj" => \A i \in DOMAIN Live(d) :
       LET v == Live(d)[i] IN ~(v.style = "tuple" /\ Len(v.fields) = 1 /\ Skipped(v.fields[1]))
  /\ d.rep = "int" => \A i \in DOMAIN d.variants :
       d.variants[i].style = "struct" => \A j \in DOMAIN d.variants[i].fields : FName(d.variants[i].fields[j], d.variants[i].all) # d.tag
Ok == CASE IsStruct -> d.conv # "" \/ OkStruct(d)
        [] IsEnum -> OkEnum
        [] OTHER -> TRUE
Deep == CASE Fam = "flat" -> d.style = "named" /\ Flats(d.fields) # <<>>
          [] Fam \in {"typesim", "structsim"} -> used >= 2
          [] Fam = "enumsim" -> used >= 2 /\ Len(d.variants) >= 2
          [] OTHER -> TRUE

Emit == (Begun /\ Ok /\ Deep) => PrintT("@@" \o ToJson(d))
=============================================================================