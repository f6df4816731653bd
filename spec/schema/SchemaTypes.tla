---------------------------- MODULE SchemaTypes ----------------------------
(* The data language that Rust (serde) and the generated TypeScript (zod schema, type) share.

   A type term describes a Rust type, a declaration describes a derived struct or enum.  For both,
     Rep(T, v)   the JavaScript value v is in the JSON representation of T: what T serializes to,
                 under the names and omissions of its deserializing side.  The schema must accept v.
     Acc(T, j)   serde deserializes the JSON value j as T.  The schema must accept nothing else.
     Probes(T)   values at and around the representation of T, with what makes them special.
   Names that TLC cannot print are written @name and translated by the driver.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

----------------------------------------------------------------------------
(* JavaScript values *)
Null == [t |-> "null"]
Undef == [t |-> "undef"]
Bool(b) == [t |-> "bool", b |-> b]
Num(n) == [t |-> "num", n |-> n]
Str(s) == [t |-> "str", s |-> s]
Arr(e) == [t |-> "arr", e |-> e]
Obj(m) == [t |-> "obj", m |-> m]          \* a sequence of <<key, value>>, keys distinct
SetV(e) == [t |-> "set", e |-> e]
MapV(p) == [t |-> "map", p |-> p]         \* a sequence of <<value, value>>

Has(m, k) == \E i \in DOMAIN m : m[i][1] = k
Get(m, k) == m[CHOOSE i \in DOMAIN m : m[i][1] = k][2]
Without(m, k) == SelectSeq(m, LAMBDA x : x[1] # k)
With(m, k, v) == [i \in DOMAIN m |-> IF m[i][1] = k THEN <<k, v>> ELSE m[i]]
Put(m, k, v) == IF Has(m, k) THEN With(m, k, v) ELSE Append(m, <<k, v>>)
Keys(m) == {m[i][1] : i \in DOMAIN m}

(* what JSON.stringify makes of a value that is an argument of a call; undefined, which it writes as null
   where it cannot be left out, is still told apart here *)
RECURSIVE Wire(_)
Wire(v) ==
  CASE v.t = "num" /\ v.n \in {"NaN", "Infinity", "-Infinity"} -> Null
    [] v.t = "arr" -> Arr([i \in DOMAIN v.e |-> Wire(v.e[i])])
    [] v.t = "obj" -> LET m == SelectSeq(v.m, LAMBDA x : x[2].t # "undef")
                      IN Obj([i \in DOMAIN m |-> <<m[i][1], Wire(m[i][2])>>])
    [] v.t \in {"set", "map"} -> Obj(<<>>)
    [] OTHER -> v

----------------------------------------------------------------------------
(* Numbers: doubles in increasing order *)
N(s, int) == [s |-> s, int |-> int]
Atoms == <<
  N("-Infinity", FALSE),
  N("-1e308", TRUE),
  N("-170141183460469269510619166673045815296", TRUE),
  N("-170141183460469231731687303715884105728", TRUE),   \* 4: i128
  N("-1e21", TRUE),
  N("-9223372036854777856", TRUE),
  N("-9223372036854775808", TRUE),                      \* 7: i64
  N("-2147483649", TRUE),
  N("-2147483648", TRUE),                               \* 9: i32
  N("-32769", TRUE),
  N("-32768", TRUE),                                    \* 11: i16
  N("-129", TRUE),
  N("-128", TRUE),                                      \* 13: i8
  N("-1", TRUE),
  N("-0.5", FALSE),
  N("0", TRUE),                                         \* 16
  N("5e-324", FALSE),
  N("0.5", FALSE),
  N("1", TRUE),
  N("126.5", FALSE),
  N("127", TRUE),                                       \* 21: i8
  N("128", TRUE),
  N("255", TRUE),                                       \* 23: u8
  N("256", TRUE),
  N("32767", TRUE),                                     \* 25: i16
  N("32768", TRUE),
  N("65535", TRUE),                                     \* 27: u16
  N("65536", TRUE),
  N("2147483647", TRUE),                                \* 29: i32
  N("2147483648", TRUE),
  N("4294967295", TRUE),                                \* 31: u32
  N("4294967296", TRUE),
  N("9007199254740991", TRUE),
  N("9223372036854774784", TRUE),                       \* 34: i64 (largest double below 2^63)
  N("9223372036854775808", TRUE),
  N("18446744073709549568", TRUE),                      \* 36: u64 (largest double below 2^64)
  N("18446744073709551616", TRUE),
  N("999999999999999900000", TRUE),
  N("1e21", TRUE),
  N("170141183460469212842221372237303250944", TRUE),    \* 40: i128
  N("170141183460469231731687303715884105728", TRUE),
  N("340282366920938425684442744474606501888", TRUE),    \* 42: u128
  N("340282366920938463463374607431768211456", TRUE),
  N("1e39", TRUE),
  N("1e308", TRUE),
  N("Infinity", FALSE),
  N("NaN", FALSE) >>
Unsigned == {"u8", "u16", "u32", "u64", "u128", "usize"}
Signed == {"i8", "i16", "i32", "i64", "i128", "isize"}
Ints == Unsigned \union Signed
Floats == {"f32", "f64"}
Lo(n) == CASE n \in Unsigned -> 16 [] n = "i8" -> 13 [] n = "i16" -> 11 [] n = "i32" -> 9
           [] n \in {"i64", "isize"} -> 7 [] n = "i128" -> 4
Hi(n) == CASE n = "u8" -> 23 [] n = "u16" -> 27 [] n = "u32" -> 31 [] n \in {"u64", "usize"} -> 36
           [] n = "u128" -> 42 [] n = "i8" -> 21 [] n = "i16" -> 25 [] n = "i32" -> 29
           [] n \in {"i64", "isize"} -> 34 [] n = "i128" -> 40
AtomIx(s) == CHOOSE i \in DOMAIN Atoms : Atoms[i].s = s
InRange(n, s) == LET i == AtomIx(s) IN Atoms[i].int /\ Lo(n) <= i /\ i <= Hi(n)
Finite(s) == s \notin {"NaN", "Infinity", "-Infinity"}

(* Strings *)
V4 == {"127.0.0.1", "0.0.0.0", "255.255.255.255", "1.20.100.9"}
V6 == {"::", "::1", "2001:db8::1", "1:2:3:4:5:6:7:8", "::ffff:1.2.3.4", "fe80::ABCD"}
NoIp == {"", "a", "256.1.1.1", "1.2.3", "1.2.3.4.5", "01.2.3.4", " 1.2.3.4", "g::1", "1:2:3:4:5:6:7", "12345::", "1:::2",
         "1:2:3:4:5:6:7:8:9"}
OneChar == {"a", "@uml", "@nl", "@quote", "@astral"}
NotOneChar == {"", "ab", "@lone", "@combining"}
Texts == {"", "a", "ab", "@uml", "@nl", "@quote", "@astral", "@combining", "127.0.0.1"}

Prims == {"bool", "String", "char", "unit", "Ipv4Addr", "Ipv6Addr", "IpAddr"} \union Ints \union Floats

IsNull(j) == j.t \in {"null", "undef"}
PAcc(n, j) ==
  CASE n = "bool" -> j.t = "bool"
    [] n = "unit" -> IsNull(j)
    [] n \in {"String", "SmolStr"} -> j.t = "str" /\ j.s # "@lone"
    [] n = "char" -> j.t = "str" /\ j.s \in OneChar
    [] n = "Ipv4Addr" -> j.t = "str" /\ j.s \in V4
    [] n = "Ipv6Addr" -> j.t = "str" /\ j.s \in V6
    [] n = "IpAddr" -> j.t = "str" /\ j.s \in V4 \union V6
    [] n \in Ints -> j.t = "num" /\ InRange(n, j.n)
    [] n \in Floats \union {"NotNan32", "NotNan64"} -> j.t = "num"
PRep(n, v) ==
  CASE n \in Ints -> v.t = "num" /\ InRange(n, v.n)
    [] n \in Floats \union {"NotNan32", "NotNan64"} -> v.t = "num" /\ Finite(v.n)
    [] n = "unit" -> v.t = "null"
    [] OTHER -> PAcc(n, v)

----------------------------------------------------------------------------
(* Identifiers are sequences of words, so that the renaming rules can be stated *)
W(l, c, u) == [l |-> l, c |-> c, u |-> u]
W1 == W("one", "One", "ONE")
W2 == W("two", "Two", "TWO")
W3 == W("red", "Red", "RED")
W4 == W("type", "Type", "TYPE")
W5 == W("x1", "X1", "X1")
RECURSIVE Join(_, _, _)
Join(ws, f(_), sep) == IF Len(ws) = 1 THEN f(ws[1]) ELSE f(ws[1]) \o sep \o Join(Tail(ws), f, sep)
Lower(w) == w.l
Cap(w) == w.c
Upper(w) == w.u
Snake(ws) == Join(ws, Lower, "_")
Pascal(ws) == Join(ws, Cap, "")
Camel(ws) == IF Len(ws) = 1 THEN ws[1].l ELSE ws[1].l \o Pascal(Tail(ws))
Rules == {"lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case",
          "SCREAMING-KEBAB-CASE"}
FieldRule(r, ws) ==
  CASE r \in {"", "lowercase", "snake_case"} -> Snake(ws)
    [] r \in {"UPPERCASE", "SCREAMING_SNAKE_CASE"} -> Join(ws, Upper, "_")
    [] r = "PascalCase" -> Pascal(ws)
    [] r = "camelCase" -> Camel(ws)
    [] r = "kebab-case" -> Join(ws, Lower, "-")
    [] r = "SCREAMING-KEBAB-CASE" -> Join(ws, Upper, "-")
VariantRule(r, ws) ==
  CASE r \in {"", "PascalCase"} -> Pascal(ws)
    [] r = "lowercase" -> Join(ws, Lower, "")
    [] r = "UPPERCASE" -> Join(ws, Upper, "")
    [] r = "camelCase" -> Camel(ws)
    [] r = "snake_case" -> Snake(ws)
    [] r = "SCREAMING_SNAKE_CASE" -> Join(ws, Upper, "_")
    [] r = "kebab-case" -> Join(ws, Lower, "-")
    [] r = "SCREAMING-KEBAB-CASE" -> Join(ws, Upper, "-")

----------------------------------------------------------------------------
(* Type terms *)
P(n) == [k |-> "prim", n |-> n]
Opt(a) == [k |-> "opt", a |-> a]
Vec(a) == [k |-> "vec", a |-> a]
ArrN(a, n) == [k |-> "arr", a |-> a, len |-> n]
Tup(s) == [k |-> "tup", s |-> s]
Res(a, b) == [k |-> "res", a |-> a, b |-> b]
Wrap(w, a) == [k |-> "wrap", w |-> w, a |-> a]
SetT(w, a) == [k |-> "set", w |-> w, a |-> a]
MapT(w, a, b) == [k |-> "map", w |-> w, a |-> a, b |-> b]
Ref(d) == [k |-> "ref", d |-> d]

(* Declarations.
   field:   id (words), ty, ren ("" or a name), skip ("", "skip", "skip_de", "skip_ser"), dflt ("", "default", "path"),
            flat (its members are those of the struct it is in)
   struct:  kind "struct", style "named" | "tuple", fields, all (rename_all), cdef (container default), transparent,
            conv ("", "from", "try_from"), via (type it is converted from)
   enum:    kind "enum", rep "ext" | "int" | "adj" | "unt", tag, content, all, conv, via,
            variants: id, ren, all, skip, style "unit" | "tuple" | "struct", fields
   `ren` and `all` may also be given for the deserializing side only (dir = "de").                       *)
F(id, ty, ren, skip, dflt) == [id |-> id, ty |-> ty, ren |-> ren, skip |-> skip, dflt |-> dflt, dir |-> "", flat |-> FALSE]
Field(id, ty) == F(id, ty, "", "", "")
Struct(style, fields) == [kind |-> "struct", style |-> style, fields |-> fields, all |-> "", alldir |-> "", cdef |-> FALSE,
                          transparent |-> FALSE, conv |-> "", via |-> P("unit")]
V(id, style, fields) == [id |-> id, ren |-> "", dir |-> "", all |-> "", alldir |-> "", skip |-> "", style |-> style, fields |-> fields]
Enum(rep, variants) == [kind |-> "enum", rep |-> rep, tag |-> "type", content |-> "content", all |-> "", alldir |-> "",
                        variants |-> variants, conv |-> "", via |-> P("unit")]

Skipped(f) == f.skip \in {"skip", "skip_de"}
Active(fs) == SelectSeq(fs, LAMBDA f : ~Skipped(f))
FName(f, rule) == IF f.ren # "" THEN f.ren ELSE FieldRule(rule, f.id)
VName(v, rule) == IF v.ren # "" THEN v.ren ELSE VariantRule(rule, v.id)
(* the members of a struct with flattened fields: those of its other fields and those of the flattened types *)
Plains(fs) == SelectSeq(fs, LAMBDA f : ~f.flat)
Flats(fs) == SelectSeq(fs, LAMBDA f : f.flat)
Select(m, S) == SelectSeq(m, LAMBDA p : p[1] \in S)
(* a tuple is a newtype by the number of its declared fields *)
Form(style, fs) ==
  CASE style = "unit" -> "unit"
    [] style = "tuple" /\ Len(fs) = 1 -> IF Skipped(fs[1]) THEN "unit" ELSE "newtype"
    [] style = "tuple" -> "tuple"
    [] OTHER -> "named"

(* the library that type terms refer to; also present in every generated crate *)
Lib == [
  Point |-> Struct("named", <<Field(<<W5>>, P("u8")), Field(<<W1, W2>>, Opt(P("String")))>>),
  Color |-> Enum("ext", <<V(<<W3>>, "unit", <<>>), V(<<W2>>, "tuple", <<Field(<<W1>>, P("u8"))>>)>>),
  Node |-> Struct("named", <<Field(<<W1>>, P("bool")), Field(<<W2>>, Opt(Wrap("Box", Ref("Node"))))>>),
  Meters |-> Struct("tuple", <<Field(<<W1>>, P("f64"))>>),
  Pair |-> Struct("tuple", <<Field(<<W1>>, P("i16")), Field(<<W2>>, P("String"))>>),
  Tree |-> Enum("adj", <<V(<<W1>>, "unit", <<>>), V(<<W2>>, "tuple", <<Field(<<W1>>, Vec(Ref("Tree")))>>)>>),
  Even |-> Struct("named", <<Field(<<W1>>, P("u8")), [Field(<<W2>>, P("bool")) EXCEPT !.dflt = "default"]>>),
  Ping |-> Struct("named", <<Field(<<W1>>, Opt(Wrap("Box", Ref("Pong"))))>>),
  Pong |-> Enum("ext", <<V(<<W1>>, "unit", <<>>), V(<<W2>>, "struct", <<Field(<<W5>>, Vec(Ref("Ping")))>>)>>),
  Scene |-> Struct("named", <<Field(<<W4>>, MapT("BTreeMap", P("String"), Ref("Point"))), Field(<<W3>>, Vec(Tup(<<Ref("Color"), P("f64")>>)))>>) ]

RECURSIVE Spread(_)        \* the members that a flattened type has
Spread(T) == IF T.k = "wrap" THEN Spread(T.a)
             ELSE LET d == Lib[T.d] IN IF d.kind = "enum" THEN {d.tag, d.content} ELSE {FName(d.fields[i], d.all) : i \in DOMAIN d.fields}

----------------------------------------------------------------------------
(* serde *)
(* K is a set of deviations of the generated schemas from serde that are listed as findings: with K = {} this is
   what serde accepts; with others, it is also what the schema is known to accept beyond that.
     lone     strings with a lone surrogate, which are no Unicode text
     adjunit  an adjacently tagged unit variant with any content
     extkey   an externally tagged value (also Ok and Err) with further members
     undef    undefined for a defaulted element of a tuple, or a defaulted newtype, which is sent as null;
              the key Ok, Err, or of an externally tagged variant, left out where its content may be undefined *)
KeyAcc(T, k) == T.k = "prim" /\ CASE T.n = "String" -> TRUE [] T.n \in {"char", "Ipv4Addr", "Ipv6Addr", "IpAddr"} -> PAcc(T.n, Str(k)) [] OTHER -> FALSE
(* types whose schema accepts undefined *)
RECURSIVE TakesUndef(_)
TakesUndef(T) == T.k = "opt" \/ (T.k = "wrap" /\ (T.w = "Weak" \/ (T.w # "PhantomData" /\ TakesUndef(T.a))))
RECURSIVE Acc(_, _, _), AccDecl(_, _, _), MissOk(_), AccNamed(_, _, _, _, _), AccSeq(_, _, _, _), AccBody(_, _, _, _, _)
Acc(K, T, j) ==
  CASE T.k = "prim" -> PAcc(T.n, j) \/ ("lone" \in K /\ T.n \in {"String", "SmolStr"} /\ j.t = "str")
    [] T.k = "opt" -> IsNull(j) \/ Acc(K, T.a, j)
    [] T.k = "vec" -> j.t = "arr" /\ \A i \in DOMAIN j.e : Acc(K, T.a, j.e[i])
    [] T.k = "arr" -> j.t = "arr" /\ Len(j.e) = T.len /\ \A i \in DOMAIN j.e : Acc(K, T.a, j.e[i])
    [] T.k = "tup" -> j.t = "arr" /\ Len(j.e) = Len(T.s) /\ \A i \in DOMAIN j.e : Acc(K, T.s[i], j.e[i])
    [] T.k = "res" /\ "undef" \in K /\ j.t = "obj"
       /\ ((TakesUndef(T.a) /\ ~Has(j.m, "Ok")) \/ (TakesUndef(T.b) /\ ~Has(j.m, "Err"))) -> TRUE
    [] T.k = "res" -> j.t = "obj" /\ (Len(j.m) = 1 \/ "extkey" \in K)
                      /\ \/ Has(j.m, "Ok") /\ Acc(K, T.a, Get(j.m, "Ok"))
                         \/ Has(j.m, "Err") /\ Acc(K, T.b, Get(j.m, "Err"))
    [] T.k = "wrap" -> CASE T.w = "Weak" -> IsNull(j) \/ Acc(K, T.a, j)
                         [] T.w = "PhantomData" -> IsNull(j)
                         [] OTHER -> Acc(K, T.a, j)
    [] T.k = "set" -> j.t = "arr" /\ \A i \in DOMAIN j.e : Acc(K, T.a, j.e[i])
    [] T.k = "map" -> j.t = "obj" /\ \A i \in DOMAIN j.m : KeyAcc(T.a, j.m[i][1]) /\ Acc(K, T.b, j.m[i][2])
    [] T.k = "ref" -> AccDecl(K, Lib[T.d], j)
(* a missing member is None *)
MissOk(T) == T.k = "opt" \/ (T.k = "wrap" /\ (T.w = "Weak" \/ (T.w # "PhantomData" /\ MissOk(T.a))))
AccSeq(K, fs, e, cdef) ==
  /\ Len(e) <= Len(fs)
  /\ \A i \in DOMAIN fs : IF i <= Len(e) THEN Acc(K, fs[i].ty, e[i]) \/ ("undef" \in K /\ (cdef \/ fs[i].dflt # "") /\ e[i] = Undef) ELSE cdef \/ fs[i].dflt # ""
AccNamed(K, fs, m, rule, cdef) ==
  \A i \in DOMAIN fs : LET k == FName(fs[i], rule)
                       IN IF Has(m, k) THEN Acc(K, fs[i].ty, Get(m, k)) ELSE cdef \/ fs[i].dflt # "" \/ MissOk(fs[i].ty)
(* the content of a struct or variant *)
AccBody(K, x, j, rule, cdef) ==
  LET fs == Active(x.fields)
      form == Form(x.style, x.fields)
  IN CASE form = "unit" -> IsNull(j)
       [] form = "newtype" -> Acc(K, fs[1].ty, j) \/ ("undef" \in K /\ fs[1].dflt # "" /\ j = Undef)
       [] form = "tuple" -> j.t = "arr" /\ AccSeq(K, fs, j.e, cdef)
       [] form = "named" /\ Flats(fs) # <<>> ->
            LET ps == Plains(fs)
                rest == Obj(SelectSeq(j.m, LAMBDA y : \A i \in DOMAIN ps : y[1] # FName(ps[i], rule)))
            IN /\ j.t = "obj" /\ AccNamed(K, ps, j.m, rule, cdef)
               /\ \A i \in DOMAIN Flats(fs) : Acc(K, Flats(fs)[i].ty, rest)
       [] form = "named" -> \/ j.t = "obj" /\ AccNamed(K, fs, j.m, rule, cdef)
                            \/ j.t = "arr" /\ AccSeq(K, fs, j.e, cdef)
(* struct variants that are read from a buffer do not accept sequences *)
NoSeq(x, j) == ~(x.style = "struct" /\ j.t = "arr")
(* what is buffered must be text *)
RECURSIVE HasLone(_)
HasLone(j) == CASE j.t = "str" -> j.s = "@lone"
                [] j.t = "arr" -> \E i \in DOMAIN j.e : HasLone(j.e[i])
                [] j.t = "obj" -> \E i \in DOMAIN j.m : HasLone(j.m[i][2])
                [] OTHER -> FALSE
Live(d) == SelectSeq(d.variants, LAMBDA v : v.skip \notin {"skip", "skip_de"})
AccDecl(K, d, j) ==
  CASE d.conv # "" -> Acc(K, d.via, j)
    [] d.kind = "struct" /\ d.transparent -> Acc(K, Active(d.fields)[1].ty, j)
    [] d.kind = "struct" -> AccBody(K, d, j, d.all, d.cdef)
    [] OTHER ->
       LET vs == Live(d)
       IN \E i \in DOMAIN vs :
          LET v == vs[i]
              name == VName(v, d.all)
              form == Form(v.style, v.fields)
          IN CASE d.rep = "ext" -> \/ form = "unit" /\ j.t = "str" /\ j.s = name
                                   \/ /\ j.t = "obj" /\ (Len(j.m) = 1 \/ ("extkey" \in K /\ form # "unit")) /\ Has(j.m, name)
                                      /\ AccBody(K, v, Get(j.m, name), v.all, FALSE)
                                   \/ "undef" \in K /\ form = "newtype" /\ (Active(v.fields)[1].dflt # "" \/ TakesUndef(Active(v.fields)[1].ty))
                                      /\ j.t = "obj" /\ ~Has(j.m, name)
               [] d.rep = "int" ->
                    LET body(r) == CASE form = "unit" -> TRUE
                                     [] OTHER -> AccBody(K, v, r, v.all, FALSE)
                    IN \/ j.t = "obj" /\ Has(j.m, d.tag) /\ Get(j.m, d.tag) = Str(name) /\ body(Obj(Without(j.m, d.tag)))
                       \/ j.t = "arr" /\ Len(j.e) >= 1 /\ j.e[1] = Str(name) /\ body(Arr(Tail(j.e)))
               [] d.rep = "adj" ->
                    \/ /\ j.t = "obj" /\ Has(j.m, d.tag) /\ Get(j.m, d.tag) = Str(name)
                       /\ IF Has(j.m, d.content) /\ ~(form = "unit" /\ "adjunit" \in K)
                          THEN NoSeq(v, Get(j.m, d.content)) /\ AccBody(K, v, Get(j.m, d.content), v.all, FALSE)
                          ELSE form = "unit"
                               \/ (form = "newtype" /\ (MissOk(Active(v.fields)[1].ty) \/ ("undef" \in K /\ Active(v.fields)[1].dflt # "")))
                    \/ /\ j.t = "arr" /\ Len(j.e) = 2 /\ j.e[1] = Str(name)
                       /\ NoSeq(v, j.e[2]) /\ AccBody(K, v, j.e[2], v.all, FALSE)
               [] d.rep = "unt" -> NoSeq(v, j) /\ ("lone" \in K \/ ~HasLone(j)) /\ AccBody(K, v, j, v.all, FALSE)

----------------------------------------------------------------------------
(* the JSON representation *)
RECURSIVE Rep(_, _), RepDecl(_, _), RepNamed(_, _, _, _), RepBody(_, _, _, _)
Rep(T, v) ==
  CASE T.k = "prim" -> PRep(T.n, v)
    [] T.k = "opt" -> v.t = "null" \/ Rep(T.a, v)
    [] T.k = "vec" -> v.t = "arr" /\ \A i \in DOMAIN v.e : Rep(T.a, v.e[i])
    [] T.k = "arr" -> v.t = "arr" /\ Len(v.e) = T.len /\ \A i \in DOMAIN v.e : Rep(T.a, v.e[i])
    [] T.k = "tup" -> v.t = "arr" /\ Len(v.e) = Len(T.s) /\ \A i \in DOMAIN v.e : Rep(T.s[i], v.e[i])
    [] T.k = "res" -> v.t = "obj" /\ Len(v.m) = 1
                      /\ \/ v.m[1][1] = "Ok" /\ Rep(T.a, v.m[1][2])
                         \/ v.m[1][1] = "Err" /\ Rep(T.b, v.m[1][2])
    [] T.k = "wrap" -> CASE T.w = "Weak" -> v.t = "null" \/ Rep(T.a, v)
                         [] T.w = "PhantomData" -> v.t = "null"
                         [] OTHER -> Rep(T.a, v)
    [] T.k = "set" -> v.t = "set" /\ \A i \in DOMAIN v.e : Rep(T.a, v.e[i])
    [] T.k = "map" -> v.t = "map" /\ \A i \in DOMAIN v.p : Rep(T.a, v.p[i][1]) /\ Rep(T.b, v.p[i][2])
    [] T.k = "ref" -> RepDecl(Lib[T.d], v)
RepNamed(fs, m, rule, cdef) ==
  /\ Keys(m) \subseteq {FName(fs[i], rule) : i \in DOMAIN fs}
  /\ \A i \in DOMAIN fs : LET k == FName(fs[i], rule)
                          IN IF Has(m, k) THEN Rep(fs[i].ty, Get(m, k)) ELSE cdef \/ fs[i].dflt # ""
RepBody(x, v, rule, cdef) ==
  LET fs == Active(x.fields)
      form == Form(x.style, x.fields)
  IN CASE form = "unit" -> v.t = "null"
       [] form = "newtype" -> Rep(fs[1].ty, v)
       [] form = "tuple" -> v.t = "arr" /\ Len(v.e) = Len(fs) /\ \A i \in DOMAIN fs : Rep(fs[i].ty, v.e[i])
       [] form = "named" ->
            LET ps == Plains(fs)
                qs == Flats(fs)
                all == {Spread(qs[i].ty) : i \in DOMAIN qs}
            IN /\ v.t = "obj"
               /\ RepNamed(ps, Select(v.m, Keys(v.m) \ UNION all), rule, cdef)
               /\ \A i \in DOMAIN qs : Rep(qs[i].ty, Obj(Select(v.m, Spread(qs[i].ty))))
RepDecl(d, v) ==
  CASE d.conv # "" -> Rep(d.via, v)
    [] d.kind = "struct" /\ d.transparent -> Rep(Active(d.fields)[1].ty, v)
    [] d.kind = "struct" -> RepBody(d, v, d.all, d.cdef)
    [] OTHER ->
       LET vs == Live(d)
       IN \E i \in DOMAIN vs :
          LET x == vs[i]
              name == VName(x, d.all)
              form == Form(x.style, x.fields)
          IN CASE d.rep = "ext" -> IF form = "unit" THEN v = Str(name)
                                   ELSE v.t = "obj" /\ Len(v.m) = 1 /\ v.m[1][1] = name /\ RepBody(x, v.m[1][2], x.all, FALSE)
               [] d.rep = "int" -> /\ v.t = "obj" /\ Has(v.m, d.tag) /\ Get(v.m, d.tag) = Str(name)
                                   /\ IF form = "unit" THEN Len(v.m) = 1 ELSE RepBody(x, Obj(Without(v.m, d.tag)), x.all, FALSE)
               [] d.rep = "adj" -> /\ v.t = "obj" /\ Has(v.m, d.tag) /\ Get(v.m, d.tag) = Str(name)
                                   /\ IF form = "unit" THEN Len(v.m) = 1
                                      ELSE Len(v.m) = 2 /\ Has(v.m, d.content) /\ RepBody(x, Get(v.m, d.content), x.all, FALSE)
               [] d.rep = "unt" -> RepBody(x, v, x.all, FALSE)

----------------------------------------------------------------------------
(* What a TypeScript type can say of T: ranges, formats and lengths are left out, undeclared members are allowed. *)
(* K = {"opt-member"} lets members be left out whose type admits undefined, which schemas allow and types do not *)
RECURSIVE Shape(_, _, _), ShapeDecl(_, _, _), ShapeBody(_, _, _, _, _)
Member(m, k) == IF Has(m, k) THEN Get(m, k) ELSE Undef
There(K, m, k) == Has(m, k) \/ "opt-member" \in K
Shape(K, T, v) ==
  CASE T.k = "prim" -> CASE T.n = "bool" -> v.t = "bool" [] T.n = "unit" -> v.t = "null"
                         [] T.n \in {"String", "SmolStr", "char", "Ipv4Addr", "Ipv6Addr", "IpAddr"} -> v.t = "str"
                         [] OTHER -> v.t = "num"
    [] T.k = "opt" -> v.t \in {"null", "undef"} \/ Shape(K, T.a, v)
    [] T.k \in {"vec", "arr"} -> v.t = "arr" /\ \A i \in DOMAIN v.e : Shape(K, T.a, v.e[i])
    [] T.k = "tup" -> v.t = "arr" /\ Len(v.e) = Len(T.s) /\ \A i \in DOMAIN v.e : Shape(K, T.s[i], v.e[i])
    [] T.k = "res" -> v.t = "obj" /\ ((There(K, v.m, "Ok") /\ Shape(K, T.a, Member(v.m, "Ok"))) \/ (There(K, v.m, "Err") /\ Shape(K, T.b, Member(v.m, "Err"))))
    [] T.k = "wrap" -> CASE T.w = "Weak" -> v.t \in {"null", "undef"} \/ Shape(K, T.a, v)
                         [] T.w = "PhantomData" -> v.t = "null"
                         [] OTHER -> Shape(K, T.a, v)
    [] T.k = "set" -> v.t = "set" /\ \A i \in DOMAIN v.e : Shape(K, T.a, v.e[i])
    [] T.k = "map" -> v.t = "map" /\ \A i \in DOMAIN v.p : Shape(K, T.a, v.p[i][1]) /\ Shape(K, T.b, v.p[i][2])
    [] T.k = "ref" -> ShapeDecl(K, Lib[T.d], v)
ShapeBody(K, x, v, rule, cdef) ==
  LET fs == Active(x.fields)
      form == Form(x.style, x.fields)
      dflt(i) == cdef \/ fs[i].dflt # ""
      ok(i, w) == Shape(K, fs[i].ty, w) \/ (dflt(i) /\ w = Undef)
  IN CASE form = "unit" -> v.t = "null"
       [] form = "newtype" -> ok(1, v)
       [] form = "tuple" -> v.t = "arr" /\ Len(v.e) = Len(fs) /\ \A i \in DOMAIN fs : ok(i, v.e[i])
       [] form = "named" /\ Flats(fs) # <<>> ->
            LET ps == Plains(fs)
                qs == Flats(fs)
            IN /\ v.t = "obj"
               /\ ShapeBody(K, [x EXCEPT !.fields = ps], v, rule, cdef)
               /\ \A i \in DOMAIN qs : Shape(K, qs[i].ty, v)
       [] form = "named" -> \/ v.t = "obj" /\ \A i \in DOMAIN fs : LET k == FName(fs[i], rule) IN (dflt(i) \/ There(K, v.m, k)) /\ ok(i, Member(v.m, k))
                            \/ fs = <<>> /\ v.t \notin {"null", "undef"}       \* the TypeScript type {}
ShapeDecl(K, d, v) ==
  CASE d.conv # "" -> Shape(K, d.via, v)
    [] d.kind = "struct" /\ d.transparent -> Shape(K, Active(d.fields)[1].ty, v)
    [] d.kind = "struct" -> ShapeBody(K, d, v, d.all, d.cdef)
    [] OTHER ->
       LET vs == Live(d)
       IN \E i \in DOMAIN vs :
          LET x == vs[i]
              name == VName(x, d.all)
              form == Form(x.style, x.fields)
              tagged == v.t = "obj" /\ Has(v.m, d.tag) /\ Get(v.m, d.tag) = Str(name)
          IN CASE d.rep = "ext" -> IF form = "unit" THEN v = Str(name)
                                   ELSE v.t = "obj" /\ There(K, v.m, name) /\ ShapeBody(K, x, Member(v.m, name), x.all, FALSE)
               [] d.rep = "int" -> tagged /\ (form = "unit" \/ ShapeBody(K, x, Obj(Without(v.m, d.tag)), x.all, FALSE))
               [] d.rep = "adj" -> tagged /\ (form = "unit" \/ (There(K, v.m, d.content) /\ ShapeBody(K, x, Member(v.m, d.content), x.all, FALSE)))
               [] d.rep = "unt" -> ShapeBody(K, x, v, x.all, FALSE)

----------------------------------------------------------------------------
(* Values to try.  Good(T) are in the representation.  Bad(T) are values around it; each is a record of the
   value and of marks:
     extra  has a member that is not declared *)
B(v) == [v |-> v, extra |-> FALSE]
X(v) == [B(v) EXCEPT !.extra = TRUE]
Up(b, v) == [b EXCEPT !.v = v]

Wrong == {Null, Undef, Bool(TRUE), Num("1"), Str("ab"), Arr(<<>>), Obj(<<>>)}

AllNums == {Num(Atoms[i].s) : i \in DOMAIN Atoms}
GoodP(n) ==
  CASE n = "bool" -> {Bool(TRUE), Bool(FALSE)}
    [] n = "unit" -> {Null}
    [] n \in {"String", "SmolStr"} -> {Str(s) : s \in Texts}
    [] n = "char" -> {Str(s) : s \in OneChar}
    [] n = "Ipv4Addr" -> {Str(s) : s \in V4}
    [] n = "Ipv6Addr" -> {Str(s) : s \in V6}
    [] n = "IpAddr" -> {Str(s) : s \in V4 \union V6}
    [] OTHER -> {v \in AllNums : PRep(n, v)}
BadP(n) ==
  CASE n \in {"bool", "unit"} -> {}
    [] n \in {"String", "SmolStr"} -> {B(Str("@lone"))}
    [] n = "char" -> {B(Str(s)) : s \in NotOneChar}
    [] n \in {"Ipv4Addr", "Ipv6Addr", "IpAddr"} -> {B(Str(s)) : s \in V4 \union V6 \union NoIp}
    [] OTHER -> {B(v) : v \in AllNums}

(* one representative, for the places of a value that are not being varied *)
RECURSIVE One(_), OneDecl(_), OneBody(_, _), OneVariant(_, _)
One(T) ==
  CASE T.k = "prim" ->
         (CASE T.n = "bool" -> Bool(TRUE) [] T.n = "unit" -> Null [] T.n \in {"String", "SmolStr", "char"} -> Str("a")
            [] T.n = "Ipv6Addr" -> Str("::1") [] T.n \in {"Ipv4Addr", "IpAddr"} -> Str("127.0.0.1") [] OTHER -> Num("1"))
    [] T.k = "opt" -> Null
    [] T.k = "vec" -> Arr(<<>>)
    [] T.k = "arr" -> Arr([i \in 1..T.len |-> One(T.a)])
    [] T.k = "tup" -> Arr([i \in DOMAIN T.s |-> One(T.s[i])])
    [] T.k = "res" -> Obj(<<<<"Ok", One(T.a)>>>>)
    [] T.k = "wrap" -> IF T.w \in {"Weak", "PhantomData"} THEN Null ELSE One(T.a)
    [] T.k = "set" -> SetV(<<>>)
    [] T.k = "map" -> MapV(<<>>)
    [] T.k = "ref" -> OneDecl(Lib[T.d])
OneBody(x, rule) ==
  LET fs == Active(x.fields)
      form == Form(x.style, x.fields)
  IN CASE form = "unit" -> Null
       [] form = "newtype" -> One(fs[1].ty)
       [] form = "tuple" -> Arr([i \in DOMAIN fs |-> One(fs[i].ty)])
       [] form = "named" /\ Flats(fs) # <<>> ->
            Obj(FlattenSeq([i \in DOMAIN fs |-> IF fs[i].flat THEN One(fs[i].ty).m ELSE <<<<FName(fs[i], rule), One(fs[i].ty)>>>>]))
       [] form = "named" -> Obj([i \in DOMAIN fs |-> <<FName(fs[i], rule), One(fs[i].ty)>>])
InVariant(d, x, body) ==
  LET name == VName(x, d.all)
      form == Form(x.style, x.fields)
  IN CASE d.rep = "ext" -> IF form = "unit" THEN Str(name) ELSE Obj(<<<<name, body>>>>)
       [] d.rep = "int" -> IF form = "unit" THEN Obj(<<<<d.tag, Str(name)>>>>)
                           ELSE IF body.t = "obj" THEN Obj(<<<<d.tag, Str(name)>>>> \o Without(body.m, d.tag)) ELSE body
       [] d.rep = "adj" -> IF form = "unit" THEN Obj(<<<<d.tag, Str(name)>>>>)
                           ELSE Obj(<<<<d.tag, Str(name)>>, <<d.content, body>>>>)
       [] d.rep = "unt" -> body
OneVariant(d, x) == InVariant(d, x, OneBody(x, x.all))
OneDecl(d) ==
  CASE d.conv # "" -> One(d.via)
    [] d.kind = "struct" /\ d.transparent -> One(Active(d.fields)[1].ty)
    [] d.kind = "struct" -> OneBody(d, d.all)
    [] OTHER -> OneVariant(d, Live(d)[1])

(* at most n of S *)
RECURSIVE Few(_, _)
Few(S, n) == IF n = 0 \/ S = {} THEN {} ELSE LET x == CHOOSE y \in S : TRUE IN {x} \union Few(S \ {x}, n - 1)

RECURSIVE Good(_, _), GoodDecl(_, _), GoodBody(_, _, _, _)
(* n bounds the depth to which references are varied *)
Good(T, n) ==
  {One(T)} \union
  CASE T.k = "prim" -> GoodP(T.n)
    [] T.k = "opt" -> {Null} \union Good(T.a, n)
    [] T.k = "vec" -> {Arr(<<>>), Arr(<<One(T.a), One(T.a)>>)} \union {Arr(<<v>>) : v \in Good(T.a, n)}
    [] T.k = "arr" -> IF T.len = 0 THEN {} ELSE {Arr([i \in 1..T.len |-> IF i = T.len THEN v ELSE One(T.a)]) : v \in Good(T.a, n)}
    [] T.k = "tup" -> (UNION {{Arr([j \in DOMAIN T.s |-> IF j = i THEN v ELSE One(T.s[j])]) : v \in Good(T.s[i], n)} : i \in DOMAIN T.s})
    [] T.k = "res" -> {Obj(<<<<"Ok", v>>>>) : v \in Good(T.a, n)} \union {Obj(<<<<"Err", v>>>>) : v \in Good(T.b, n)}
    [] T.k = "wrap" -> CASE T.w = "PhantomData" -> {} [] OTHER -> Good(T.a, n)
    [] T.k = "set" -> {SetV(<<v>>) : v \in Good(T.a, n)}
    [] T.k = "map" -> {MapV(<<<<v, One(T.b)>>>>) : v \in Good(T.a, n)} \union {MapV(<<<<One(T.a), v>>>>) : v \in Good(T.b, n)}
    [] T.k = "ref" -> IF n = 0 THEN {} ELSE GoodDecl(Lib[T.d], n - 1)
GoodBody(x, rule, cdef, n) ==
  LET fs == Active(x.fields)
      form == Form(x.style, x.fields)
      one == OneBody(x, rule)
  IN {one} \union
     CASE form = "unit" -> {}
       [] form = "named" /\ Flats(fs) # <<>> ->
            LET qs == Flats(fs)
            IN {Obj(g.m \o Select(one.m, UNION {Spread(qs[i].ty) : i \in DOMAIN qs})) : g \in GoodBody([x EXCEPT !.fields = Plains(fs)], rule, cdef, n)}
               \union (UNION {{Obj(Select(one.m, Keys(one.m) \ Spread(qs[i].ty)) \o g.m) : g \in Good(qs[i].ty, n)} : i \in DOMAIN qs})
       [] form = "newtype" -> Good(fs[1].ty, n)
       [] form = "tuple" -> (UNION {{Arr([one.e EXCEPT ![i] = v]) : v \in Good(fs[i].ty, n)} : i \in DOMAIN fs})
       [] form = "named" ->
            (UNION {LET k == FName(fs[i], rule)
                   IN {Obj(With(one.m, k, v)) : v \in Good(fs[i].ty, n)}
                      \union (IF cdef \/ fs[i].dflt # "" THEN {Obj(Without(one.m, k))} ELSE {}) : i \in DOMAIN fs})
            \union {LET opt == {FName(fs[i], rule) : i \in {i \in DOMAIN fs : cdef \/ fs[i].dflt # ""}}
                    IN Obj(SelectSeq(one.m, LAMBDA p : p[1] \notin opt))}
GoodDecl(d, n) ==
  CASE d.conv # "" -> Good(d.via, n)
    [] d.kind = "struct" /\ d.transparent -> Good(Active(d.fields)[1].ty, n)
    [] d.kind = "struct" -> GoodBody(d, d.all, d.cdef, n)
    [] OTHER -> LET vs == Live(d) IN (UNION {{InVariant(d, vs[i], b) : b \in GoodBody(vs[i], vs[i].all, FALSE, n)} : i \in DOMAIN vs})

RECURSIVE Bad(_, _), BadDecl(_, _), BadBody(_, _, _, _)
Bad(T, n) ==
  {B(v) : v \in Wrong} \union
  CASE T.k = "prim" -> BadP(T.n)
    [] T.k = "opt" -> Bad(T.a, n)
    [] T.k = "vec" -> {Up(b, Arr(<<b.v>>)) : b \in Bad(T.a, n)} \union {X(Obj(<<<<"0", One(T.a)>>>>)), B(SetV(<<One(T.a)>>)), B(One(T.a))}
    [] T.k = "arr" -> (IF T.len = 0 THEN {} ELSE {Up(b, Arr([i \in 1..T.len |-> IF i = T.len THEN b.v ELSE One(T.a)])) : b \in Bad(T.a, n)})
                      \union {B(Arr([i \in 1..k |-> One(T.a)])) : k \in {T.len + 1} \union (IF T.len > 0 THEN {T.len - 1} ELSE {})}
    [] T.k = "tup" -> (UNION {{Up(b, Arr([j \in DOMAIN T.s |-> IF j = i THEN b.v ELSE One(T.s[j])])) : b \in Bad(T.s[i], n)} : i \in DOMAIN T.s})
                      \union {B(Arr([j \in 1..(Len(T.s) - 1) |-> One(T.s[j])])), B(Arr([j \in DOMAIN T.s |-> One(T.s[j])] \o <<Null>>)),
                              B(Arr(Reverse([j \in DOMAIN T.s |-> One(T.s[j])]))), B(One(T.s[1]))}
    [] T.k = "res" -> {Up(b, Obj(<<<<"Ok", b.v>>>>)) : b \in Bad(T.a, n)} \union {Up(b, Obj(<<<<"Err", b.v>>>>)) : b \in Bad(T.b, n)}
                      \union {B(Obj(<<<<"ok", One(T.a)>>>>)), B(One(T.a)), B(One(T.b)), B(Str("Ok")), X(Obj(<<<<"Ok", One(T.a)>>, <<"zz", Null>>>>))}
    [] T.k = "wrap" -> Bad(T.a, n) \union {B(v) : v \in Good(T.a, n)}
    [] T.k = "set" -> {Up(b, SetV(<<b.v>>)) : b \in Bad(T.a, n)} \union {B(Arr(<<One(T.a)>>)), B(MapV(<<<<One(T.a), One(T.a)>>>>))}
    [] T.k = "map" -> {Up(b, MapV(<<<<b.v, One(T.b)>>>>)) : b \in Bad(T.a, n)} \union {Up(b, MapV(<<<<One(T.a), b.v>>>>)) : b \in Bad(T.b, n)}
                      \union {B(SetV(<<One(T.a)>>)), B(Arr(<<>>)), B(Obj(<<<<"a", One(T.b)>>>>))}
    [] T.k = "ref" -> IF n = 0 THEN {} ELSE BadDecl(Lib[T.d], n - 1)
OtherNames(f) == {FieldRule(r, f.id) : r \in Rules \union {""}}
BadBody(x, rule, cdef, n) ==
  LET fs == Active(x.fields)
      form == Form(x.style, x.fields)
      one == OneBody(x, rule)
      optional(i) == cdef \/ fs[i].dflt # ""
      names == {FName(fs[i], rule) : i \in DOMAIN fs}
  IN {B(v) : v \in Wrong} \union
     CASE form = "unit" -> {}
       [] form = "named" /\ Flats(fs) # <<>> ->
            LET qs == Flats(fs)
                objs(S) == {b \in S : b.v.t = "obj"}
                (* members may meet with those of another part *)
                safe(b, m) == Keys(b.v.m) \intersect Keys(m) = {}
                pm == Select(one.m, UNION {Spread(qs[i].ty) : i \in DOMAIN qs})
                fm(i) == Select(one.m, Keys(one.m) \ Spread(qs[i].ty))
            IN {Up(b, Obj(b.v.m \o pm)) : b \in {b \in objs(BadBody([x EXCEPT !.fields = Plains(fs)], rule, cdef, n)) : safe(b, pm)}}
               \union (UNION {{Up(b, Obj(fm(i) \o b.v.m)) : b \in {b \in objs(Bad(qs[i].ty, n)) : safe(b, fm(i))}} : i \in DOMAIN qs})
               \union {[B(Obj(<<<<FName(qs[i], rule), One(qs[i].ty)>>>> \o fm(i))) EXCEPT !.extra = TRUE] : i \in {i \in DOMAIN qs : FName(qs[i], rule) \notin Keys(one.m)}}
       [] form = "newtype" -> Bad(fs[1].ty, n)
                              \union {B(Arr(<<one>>))}
       [] form = "tuple" -> (UNION {{Up(b, Arr([one.e EXCEPT ![i] = b.v])) : b \in Bad(fs[i].ty, n)} : i \in DOMAIN fs})
                            \union {B(Arr(one.e \o <<Null>>))}
                            \union (IF fs = <<>> THEN {} ELSE {B(Arr(Front(one.e))), B(Arr(Reverse(one.e))), B(one.e[1])})
       [] form = "named" ->
            (UNION {LET k == FName(fs[i], rule)
                       m == B(Obj(Without(one.m, k)))
                   IN {Up(b, Obj(With(one.m, k, b.v))) : b \in Bad(fs[i].ty, n)}
                      \union {m}
                      \union {[Up(m, Obj(Append(Without(one.m, k), <<o, One(fs[i].ty)>>))) EXCEPT !.extra = TRUE] : o \in OtherNames(fs[i]) \ names}
                   : i \in DOMAIN fs})
            \union {X(Obj(Append(one.m, <<"zz", Bool(TRUE)>>)))}
            \union {X(Obj(Append(one.m, <<FName(x.fields[i], rule), Obj(<<>>)>>))) :
                      i \in {i \in DOMAIN x.fields : Skipped(x.fields[i]) /\ FName(x.fields[i], rule) \notin names}}
            \union {B(Arr([i \in DOMAIN fs |-> One(fs[i].ty)]))}
BadDecl(d, n) ==
  CASE d.conv # "" -> Bad(d.via, n)
    [] d.kind = "struct" /\ d.transparent -> Bad(Active(d.fields)[1].ty, n)
    [] d.kind = "struct" -> BadBody(d, d.all, d.cdef, n)
    [] OTHER ->
       LET vs == Live(d)
           ids == {d.variants[i] : i \in DOMAIN d.variants}
           names == (UNION {{VName(v, d.all)} \union {VariantRule(r, v.id) : r \in Rules} : v \in ids}) \union {"zz"}
           mine == {VName(vs[i], d.all) : i \in DOMAIN vs}
       IN {[b EXCEPT !.extra = @ \/ (d.rep = "unt" /\ b.v.t = "obj")] : b \in (
          {B(v) : v \in Wrong}
          \union (UNION {LET x == vs[i]
                            one == OneBody(x, x.all)
                            form == Form(x.style, x.fields)
                        IN {Up(b, InVariant(d, x, b.v)) : b \in BadBody(x, x.all, FALSE, n)}
                           \union {[B(InVariant(d, [x EXCEPT !.ren = nm], one)) EXCEPT !.extra = (d.rep = "unt")] : nm \in names}
                           \union {[B(InVariant([d EXCEPT !.rep = r], x, one)) EXCEPT !.extra = TRUE] : r \in {"ext", "int", "adj", "unt"} \ {d.rep}}
                           \union (IF d.rep = "adj" /\ form # "unit"
                                   THEN {B(Obj(<<<<d.tag, Str(VName(x, d.all))>>>>)),
                                         B(Obj(<<<<d.content, one>>>>)),
                                         X(Obj(<<<<d.tag, Str(VName(x, d.all))>>, <<d.content, one>>, <<"zz", Bool(TRUE)>>>>))}
                                   ELSE {})
                           \union (IF d.rep = "ext" /\ form # "unit"
                                   THEN {X(Obj(<<<<VName(x, d.all), one>>, <<"zz", Bool(TRUE)>>>>))} ELSE {})
                           \union (IF d.rep = "adj" /\ form = "unit"
                                   THEN {X(Obj(<<<<d.tag, Str(VName(x, d.all))>>, <<d.content, c>>>>)) : c \in {Null, Undef, Num("1"), Obj(<<>>)}} ELSE {})
                           \union (IF d.rep \in {"int", "adj"} THEN {B(InVariant([d EXCEPT !.tag = "tagg"], x, one)), B(InVariant([d EXCEPT !.tag = "Type"], x, one))} ELSE {})
                        : i \in DOMAIN vs})
          \union {B(Str(nm)) : nm \in names})}

(* everything to try for a declaration: the specification's verdicts go with each value *)
Findings == {"lone", "adjunit", "extkey", "undef"}
Verdict(b, rep, acc(_), shape(_)) ==
  [v |-> b.v, extra |-> b.extra, rep |-> rep, shape |-> shape({"opt-member"}), miss |-> shape({"opt-member"}) /\ ~shape({}), acc |-> acc({}),
   kf |-> IF acc({}) \/ ~acc(Findings) THEN {}
          ELSE LET enough == {S \in SUBSET Findings : acc(S)}
               IN CHOOSE S \in enough : \A Q \in enough : Cardinality(S) <= Cardinality(Q)]
Merge(good, bad) == LET vs == {b.v : b \in bad} IN bad \union {B(v) : v \in {g \in good : g \notin vs}}
ProbesT(T, n) == {LET j == Wire(b.v) IN Verdict(b, Rep(T, b.v), LAMBDA K : Acc(K, T, j), LAMBDA K : Shape(K, T, b.v)) : b \in Merge(Good(T, n), Bad(T, n))}
ProbesD(d, n) == {LET j == Wire(b.v) IN Verdict(b, RepDecl(d, b.v), LAMBDA K : AccDecl(K, d, j), LAMBDA K : ShapeDecl(K, d, b.v)) : b \in Merge(GoodDecl(d, n), BadDecl(d, n))}
=============================================================================
