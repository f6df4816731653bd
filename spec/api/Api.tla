--------------------------------- MODULE Api ---------------------------------
(* A whole program: namespaces with their types and rpc methods, backends over them, and what its parts do
   when they are used.

   A behaviour first writes a program (phases "ns", "types", "fns"), the way a programmer would, then runs a
   session with it:
     "route"  requests arrive at the backend; each is executed by exactly the handler it names, on the state of
              its namespace, or answered with an error                                            (R10)
     "calls"  functions of the generated client are called with any arguments; each sends one request with the
              arguments, or nothing                                                               (W05)
     "e2e"    clients call functions of the running server, one after another or concurrently; each
              call settles with what its method returned                                          (G03)
   The program also determines the interface of the generated client (Api, G01), which must be closed under
   references (G02).
   Finished behaviours are printed; they are replayed on the real macros, server and client.              *)
EXTENDS SchemaTypes, Integers, Json, Randomization
CONSTANTS Session, Steps
VARIABLES p,      \* the program
          ph,     \* the phase
          size,   \* how much of everything is to be written
          cur,    \* the function the next step is about (0: none)
          cnt,    \* how often each namespace has executed a method: its state
          log     \* the session so far: steps with the expected outcome

vars == <<p, ph, size, cur, cnt, log>>

----------------------------------------------------------------------------
(* Programs
   nss:  rust (identifier), name (on the wire and in TypeScript), sub (declared in a module of its own)
   types: t (declaration in Lib), name (in TypeScript), ns, docs (lines)
   fns:  ns, name, kind "method" | "stream", args (sequence of [name, ty]), out, boxed (written as boxed stream)
   backs: backends, sequences of namespaces                                                               *)
RustNs == {"Al", "Alpha", "Foo", "Bar", "A"}
WireNs == {"Foo", "Bar", "Alpha", "Al", "Zeta", "al"}
NsNames == {p.nss[i].name : i \in DOMAIN p.nss}

(* what must be written together, with what it refers to *)
Groups == << <<"Point">>, <<"Color">>, <<"Node">>, <<"Meters">>, <<"Pair">>, <<"Tree">>, <<"Even">>, <<"Ping", "Pong">>, <<"Scene">> >>
RECURSIVE RefsT(_), RefsF(_)
RefsT(T) == CASE T.k = "prim" -> {}
              [] T.k = "ref" -> {T.d}
              [] T.k = "tup" -> UNION {RefsT(T.s[i]) : i \in DOMAIN T.s}
              [] T.k \in {"res", "map"} -> RefsT(T.a) \union RefsT(T.b)
              [] OTHER -> RefsT(T.a)
RefsF(fs) == UNION {RefsT(fs[i].ty) : i \in DOMAIN fs}
RefsD(d) == IF d.kind = "struct" THEN RefsF(d.fields) ELSE UNION {RefsF(d.variants[i].fields) : i \in DOMAIN d.variants}
Written == {p.types[i].t : i \in DOMAIN p.types}
Docs == { <<>>, <<"A point.">>, <<"first line", "second */ line", "/* third">>, <<"@param x \\ `code` ${a}", "", "- item">> }
TsNames(t) == {t, "Item", "lower", "Item2"}

FnNames == {"get", "set", "get_all", "getAll", "ge", "call", "args", "clone", "type_", "id", "list", "send"}
ArgNames == << "t", "value", "type", "in", "z", "args", "id", "request", "x1", "method", "delete", "default", "_y", "sender", "ctx", "req", "arguments" >>

(* types of arguments and results *)
Scalars == {P("bool"), P("String"), P("char"), P("u8"), P("u32"), P("u64"), P("i16"), P("i64"), P("f64"), P("usize"), P("Ipv4Addr"), P("IpAddr"), P("unit")}
HashT(T) == T.k = "prim" /\ T.n \notin {"f64", "unit", "bool"}
KeyT(T) == T.k = "prim" /\ T.n \in {"String", "char", "IpAddr"}
Wrapped(T) ==
  {Opt(T), Vec(T), Tup(<<T>>), Tup(<<T, P("String")>>), Tup(<<P("bool"), T>>), Res(T, P("String")), Res(P("u8"), T), ArrN(T, 2), Wrap("Box", T), Wrap("Arc", T),
   MapT("BTreeMap", P("String"), T), Opt(Vec(T)), Vec(Opt(T)), Vec(Tup(<<P("u8"), T>>))}
  \union (IF HashT(T) THEN {SetT("HashSet", T), SetT("BTreeSet", T)} ELSE {})
  \union (IF KeyT(T) THEN {MapT("HashMap", T, P("u8")), MapT("BTreeMap", T, Vec(P("u8")))} ELSE {})
BackOf(b) == Range(p.backs[b])
(* in a backend with its namespace, so that generated code is closed *)
NsOf(t) == p.types[CHOOSE i \in DOMAIN p.types : p.types[i].t = t].ns
Together(n, m) == \A b \in DOMAIN p.backs : n \in BackOf(b) => m \in BackOf(b)
RefsFor(n) == {Ref(t) : t \in {t \in Written : Together(n, NsOf(t))}}
Bases(n) == Scalars \union RefsFor(n)

----------------------------------------------------------------------------
(* What a deserialized value is serialized to again *)
RECURSIVE WireG(_)
(* the JSON of a JavaScript value, in which sets are arrays and maps are objects *)
WireG(v) ==
  CASE v.t = "num" /\ v.n \in {"NaN", "Infinity", "-Infinity"} -> Null
    [] v.t \in {"arr", "set"} -> Arr([i \in DOMAIN v.e |-> WireG(v.e[i])])
    [] v.t = "obj" -> LET m == SelectSeq(v.m, LAMBDA x : x[2].t # "undef")
                      IN Obj([i \in DOMAIN m |-> <<m[i][1], WireG(m[i][2])>>])
    [] v.t = "map" -> Obj([i \in DOMAIN v.p |-> <<IF v.p[i][1].t = "str" THEN v.p[i][1].s ELSE "?", WireG(v.p[i][2])>>])
    [] v.t = "undef" -> Null
    [] OTHER -> v

DefaultOf(T) == CASE T.k = "prim" -> (CASE T.n = "bool" -> Bool(FALSE) [] T.n = "String" -> Str("") [] T.n = "unit" -> Null [] OTHER -> Num("0"))
                  [] T.k = "vec" -> Arr(<<>>)
                  [] OTHER -> Null
(* addresses have a canonical text *)
IpText(T, s) == IF T.k = "prim" /\ T.n \in {"Ipv6Addr", "IpAddr"} /\ s = "fe80::ABCD" THEN "fe80::abcd" ELSE s
RECURSIVE Norm(_, _), NormDecl(_, _), NormBody(_, _, _)
Norm(T, j) ==
  CASE T.k = "prim" -> IF T.n = "unit" THEN Null ELSE IF j.t = "str" THEN Str(IpText(T, j.s)) ELSE j
    [] T.k = "opt" -> IF IsNull(j) THEN Null ELSE Norm(T.a, j)
    [] T.k \in {"vec", "arr", "set"} -> Arr([i \in DOMAIN j.e |-> Norm(T.a, j.e[i])])
    [] T.k = "tup" -> Arr([i \in DOMAIN j.e |-> Norm(T.s[i], j.e[i])])
    [] T.k = "res" -> LET k == j.m[1][1] IN Obj(<<<<k, Norm(IF k = "Ok" THEN T.a ELSE T.b, j.m[1][2])>>>>)
    [] T.k = "wrap" -> Norm(T.a, j)
    [] T.k = "map" -> Obj([i \in DOMAIN j.m |-> <<IpText(T.a, j.m[i][1]), Norm(T.b, j.m[i][2])>>])
    [] T.k = "ref" -> NormDecl(Lib[T.d], j)
NormBody(x, j, rule) ==
  LET fs == Active(x.fields)
      form == Form(x.style, x.fields)
      at(i) == IF j.t = "arr"
               THEN IF i <= Len(j.e) THEN Norm(fs[i].ty, j.e[i]) ELSE DefaultOf(fs[i].ty)
               ELSE LET k == FName(fs[i], rule) IN IF Has(j.m, k) THEN Norm(fs[i].ty, Get(j.m, k)) ELSE DefaultOf(fs[i].ty)
  IN CASE form = "unit" -> Null
       [] form = "newtype" -> Norm(fs[1].ty, j)
       [] form = "tuple" -> Arr([i \in DOMAIN fs |-> at(i)])
       [] form = "named" -> Obj([i \in DOMAIN fs |-> <<FName(fs[i], rule), at(i)>>])
NormDecl(d, j) ==
  IF d.kind = "struct" THEN NormBody(d, j, d.all)
  ELSE LET vs == Live(d)
           name == CASE d.rep = "ext" -> IF j.t = "str" THEN j.s ELSE j.m[1][1]
                     [] d.rep = "adj" -> IF j.t = "arr" THEN j.e[1].s ELSE Get(j.m, d.tag).s
           body == CASE d.rep = "ext" -> IF j.t = "str" THEN Null ELSE j.m[1][2]
                     [] d.rep = "adj" -> IF j.t = "arr" THEN j.e[2] ELSE IF Has(j.m, d.content) THEN Get(j.m, d.content) ELSE Null
           x == vs[CHOOSE i \in DOMAIN vs : VName(vs[i], d.all) = name]
       IN InVariant(d, x, NormBody(x, body, x.all))

----------------------------------------------------------------------------
(* Values of arguments *)
RECURSIVE Textual(_)
Textual(v) == CASE v.t = "str" -> v.s # "@lone"
                [] v.t \in {"arr", "set"} -> \A i \in DOMAIN v.e : Textual(v.e[i])
                [] v.t = "obj" -> \A i \in DOMAIN v.m : v.m[i][1] # "@lone" /\ Textual(v.m[i][2])
                [] v.t = "map" -> \A i \in DOMAIN v.p : v.p[i][1].t = "str" /\ Textual(v.p[i][1]) /\ Textual(v.p[i][2])
                [] OTHER -> TRUE
Ok(T) == {v \in Good(T, 1) : Textual(v)}
Cand(T) == Ok(T) \union {b.v : b \in {b \in Bad(T, 1) : Textual(b.v)}}
OneArgs(f) == [i \in DOMAIN f.args |-> One(f.args[i].ty)]
Vectors(f, pool(_)) ==
  LET one == OneArgs(f)
  IN {one} \union UNION {{[one EXCEPT ![i] = v] : v \in pool(f.args[i].ty)} : i \in DOMAIN f.args}
(* lists of another length or order *)
Miscounted(f) ==
  LET one == OneArgs(f)
  IN {Append(one, v) : v \in {Null, Undef, Num("1")} \union {one[i] : i \in DOMAIN one}} \union {<<Arr(one)>>}
     \union (IF one = <<>> THEN {} ELSE {Front(one), Tail(one), <<>>, Reverse(one), <<Null>> \o one})

----------------------------------------------------------------------------
(* Writing *)
Init == /\ ph = "ns" /\ cur = 0 /\ cnt = <<>> /\ log = <<>>
        /\ \E n \in 1..4, t \in 0..5, f \in 1..7 : size = [ns |-> n, types |-> t, fns |-> f + n]
        /\ \E s \in {"named", "tuple"} : p = [nss |-> <<>>, types |-> <<>>, fns |-> <<>>, backs |-> <<>>, style |-> s]

AddNs == /\ ph = "ns" /\ Len(p.nss) < size.ns
         /\ \E r \in RustNs, sub \in BOOLEAN : \E w \in {r} \union WireNs :
              /\ w \notin NsNames
              /\ ~sub => \A i \in DOMAIN p.nss : ~(p.nss[i].rust = r /\ ~p.nss[i].sub)
              /\ p' = [p EXCEPT !.nss = Append(@, [rust |-> r, name |-> w, sub |-> sub])]
         /\ UNCHANGED <<ph, size, cur, cnt, log>>
(* the first backend has all or all but one of the namespaces, the second any of them *)
Perms(S) == {q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
Combine == /\ ph = "ns" /\ Len(p.nss) = size.ns
           /\ \E out \in 0..size.ns : \E q \in (Perms((1..size.ns) \ {out}) \ {<<>>}), r \in (UNION {Perms(S) : S \in SUBSET (1..size.ns)}) \ {<<>>} :
                p' = [p EXCEPT !.backs = <<q, r>>]
           /\ ph' = "types"
           /\ UNCHANGED <<size, cur, cnt, log>>
AddTypes ==
  /\ ph = "types" /\ Len(p.types) < size.types
  /\ \E g \in {g \in DOMAIN Groups : Groups[g][1] \notin Written} :
       LET ts == Groups[g]
       IN \E n \in [1..Len(ts) -> DOMAIN p.nss], names \in [1..Len(ts) -> UNION {TsNames(ts[i]) : i \in DOMAIN ts}], dc \in Docs :
            /\ (UNION {RefsD(Lib[ts[i]]) : i \in DOMAIN ts}) \subseteq Written \union Range(ts)
            /\ \A i \in DOMAIN ts : names[i] \in TsNames(ts[i]) /\ \A x \in Range(p.types) : ~(x.ns = n[i] /\ x.name = names[i])
            /\ \A i, j \in DOMAIN ts : i # j => names[i] # names[j] /\ Together(n[i], n[j])
            /\ \A i \in DOMAIN ts : \A r \in RefsD(Lib[ts[i]]) \ Range(ts) : Together(n[i], NsOf(r))
            /\ p' = [p EXCEPT !.types = @ \o [i \in DOMAIN ts |-> [t |-> ts[i], name |-> names[i], ns |-> n[i], docs |-> dc]]]
  /\ UNCHANGED <<ph, size, cur, cnt, log>>
Typed == /\ ph = "types" /\ Len(p.types) >= size.types
         /\ ph' = "fns"
         /\ UNCHANGED <<p, size, cur, cnt, log>>
AddFn == /\ ph = "fns" /\ cur = 0 /\ Len(p.fns) < size.fns
         /\ \E n \in DOMAIN p.nss, nm \in FnNames, k \in {"method", "stream"}, tok \in BOOLEAN :
              /\ \A f \in Range(p.fns) : ~(f.ns = n /\ f.name = nm)
              /\ \A x \in Range(p.types) : ~(x.ns = n /\ x.name = nm)
              /\ \E out \in Bases(n) :
                 p' = [p EXCEPT !.fns = Append(@, [ns |-> n, name |-> nm, kind |-> k, out |-> out, boxed |-> tok /\ k = "stream", tok |-> tok,
                                                   args |-> IF tok THEN <<[name |-> "t", ty |-> P("u32")]>> ELSE <<>>, results |-> <<>>])]
         /\ cur' = Len(p.fns) + 1
         /\ UNCHANGED <<ph, size, cnt, log>>
This == p.fns[cur]
AddArg == /\ ph = "fns" /\ cur # 0 /\ Len(This.args) < 4
          /\ \E nm \in Range(ArgNames) \ {This.args[i].name : i \in DOMAIN This.args}, T \in Bases(This.ns) :
               p' = [p EXCEPT !.fns[cur].args = Append(@, [name |-> nm, ty |-> T])]
          /\ UNCHANGED <<ph, size, cur, cnt, log>>
Small(T) == CASE T.k \in {"prim", "ref"} -> TRUE [] T.k \in {"opt", "vec", "set", "wrap", "arr"} -> T.a.k \in {"prim", "ref"} [] OTHER -> FALSE
WrapArg == /\ ph = "fns" /\ cur # 0 /\ Len(This.args) > (IF This.tok THEN 1 ELSE 0)
           /\ LET n == Len(This.args)
              IN Small(This.args[n].ty) /\ \E T \in Wrapped(This.args[n].ty) : p' = [p EXCEPT !.fns[cur].args[n].ty = T]
           /\ UNCHANGED <<ph, size, cur, cnt, log>>
WrapOut == /\ ph = "fns" /\ cur # 0 /\ Small(This.out)
           /\ \E T \in Wrapped(This.out) : p' = [p EXCEPT !.fns[cur].out = T]
           /\ UNCHANGED <<ph, size, cur, cnt, log>>
(* what the method is going to return *)
CloseFn == /\ ph = "fns" /\ cur # 0
           /\ LET all == {Norm(This.out, WireG(v)) : v \in Ok(This.out)}
              IN p' = [p EXCEPT !.fns[cur].results = SetToSeq(RandomSubset(IF Cardinality(all) > 4 THEN 4 ELSE Cardinality(all), all))]
           /\ cur' = 0
           /\ UNCHANGED <<ph, size, cnt, log>>
Wrote == /\ ph = "fns" /\ cur = 0 /\ Len(p.fns) = size.fns
         /\ ph' = IF Session = "none" \/ ~(\E i \in DOMAIN p.fns : p.fns[i].ns \in BackOf(1)) THEN "done" ELSE "run"
         /\ cnt' = [b \in DOMAIN p.backs |-> [n \in DOMAIN p.nss |-> 0]]
         /\ UNCHANGED <<p, size, cur, log>>

----------------------------------------------------------------------------
(* Sessions.  cur is the function that the next step is about. *)
Running == ph = "run" /\ Len(log) < Steps
Pick == /\ Running /\ cur = 0
        /\ \E i \in DOMAIN p.fns : (\E b \in DOMAIN p.backs : p.fns[i].ns \in BackOf(b)) /\ (Session # "route" => p.fns[i].ns \in BackOf(1)) /\ cur' = i
        /\ UNCHANGED <<p, ph, size, cnt, log>>

(* results: chosen by the token, if there is one *)
SmallNums == [s \in {ToString(n) : n \in 0..999} |-> CHOOSE n \in 0..999 : ToString(n) = s]
Token(f, args) == IF f.tok THEN IF args[1].n \in DOMAIN SmallNums THEN SmallNums[args[1].n] ELSE 0 ELSE 0
Items(f, args) ==
  LET t == Token(f, args)
      n == Len(f.results)
      at(k) == f.results[((t + k) % n) + 1]
  IN IF f.kind = "method" THEN <<at(0)>>
     ELSE [k \in 1..(IF f.tok THEN t % 4 ELSE n) |-> at(k - 1)]

Handlers(b, ns, m) == {i \in DOMAIN p.fns : p.fns[i].name = m /\ p.fns[i].ns \in BackOf(b) /\ p.nss[p.fns[i].ns].name = ns}
Fits(f, args) == args.t = "arr" /\ Len(args.e) = Len(f.args) /\ \A i \in DOMAIN f.args : Acc({}, f.args[i].ty, args.e[i])
Missing == [t |-> "missing"]
(* the request [ns, m, args] at backend b *)
Expect(b, ns, m, args) ==
  LET hs == Handlers(b, ns, m)
      i == IF hs = {} THEN 0 ELSE CHOOSE i \in hs : TRUE
  IN IF i = 0 \/ args = Missing \/ ~Fits(p.fns[i], args)
     THEN [f |-> 0, n |-> 0, args |-> <<>>, items |-> <<>>]
     ELSE LET f == p.fns[i]
              as == [k \in DOMAIN f.args |-> Norm(f.args[k].ty, args.e[k])]
          IN [f |-> i, n |-> cnt[b][f.ns] + 1, args |-> as, items |-> Items(f, as)]
Arrive(b, ns, m, args) ==
  LET x == Expect(b, ns, m, args)
  IN /\ log' = Append(log, [b |-> b, ns |-> ns, m |-> m, args |-> args, ord |-> (Len(log) * 7) % 24, x |-> x])
     /\ cnt' = IF x.f = 0 THEN cnt ELSE [cnt EXCEPT ![b][p.fns[x.f].ns] = @ + 1]
     /\ cur' = 0
     /\ UNCHANGED <<p, ph, size>>
Fun == p.fns[cur]
FNs == p.nss[Fun.ns].name
Route == Session = "route" /\ Running /\ cur # 0
(* serde takes an empty object for () when it reads it from a buffer, as it does with tagged enums: neither is promised *)
RECURSIVE HasUnit(_), HasEmpty(_)
HasUnit(T) == CASE T.k = "prim" -> T.n = "unit" [] T.k = "ref" -> FALSE
                [] T.k = "tup" -> \E i \in DOMAIN T.s : HasUnit(T.s[i])
                [] T.k \in {"res", "map"} -> HasUnit(T.a) \/ HasUnit(T.b)
                [] OTHER -> HasUnit(T.a)
HasEmpty(j) == CASE j.t = "arr" -> \E i \in DOMAIN j.e : HasEmpty(j.e[i])
                 [] j.t = "obj" -> j.m = <<>> \/ \E i \in DOMAIN j.m : HasEmpty(j.m[i][2])
                 [] OTHER -> FALSE
Buffered(as) == \E i \in DOMAIN as : HasUnit(Fun.args[i].ty) /\ HasEmpty(WireG(as[i]))
RouteArgs == Route /\ \E b \in DOMAIN p.backs : \E as \in {as \in Vectors(Fun, Cand) : ~Buffered(as)} :
               Arrive(b, FNs, Fun.name, Arr([i \in DOMAIN as |-> WireG(as[i])]))
RouteFit == Route /\ \E b \in DOMAIN p.backs : \E as \in Vectors(Fun, Ok) :
              Arrive(b, FNs, Fun.name, Arr([i \in DOMAIN as |-> WireG(as[i])]))
RouteCount == Route /\ \E b \in DOMAIN p.backs : \E as \in Miscounted(Fun) :
                Arrive(b, FNs, Fun.name, Arr([i \in DOMAIN as |-> WireG(as[i])]))
RouteOdd == Route /\ \E b \in DOMAIN p.backs :
              \E as \in {Missing, Null, Str("a"), Obj(<<>>), Obj([i \in DOMAIN Fun.args |-> <<Fun.args[i].name, WireG(OneArgs(Fun)[i])>>])}
                        \union (IF Fun.args = <<>> THEN {} ELSE {WireG(OneArgs(Fun)[1])}) : as.t # "arr" /\ Arrive(b, FNs, Fun.name, as)
(* names that are others', or nobody's *)
RouteName == Route /\ \E b \in DOMAIN p.backs : \E ns \in RustNs \union WireNs \union {"", "foo"}, m \in {p.fns[i].name : i \in DOMAIN p.fns} \union {"", "GET", "r#get", "type"} :
               Arrive(b, ns, m, Arr([i \in DOMAIN Fun.args |-> WireG(OneArgs(Fun)[i])]))
RouteOther == Route /\ \E b \in DOMAIN p.backs : \E ns \in NsNames, m \in {p.fns[i].name : i \in DOMAIN p.fns} :
               Arrive(b, ns, m, Arr([i \in DOMAIN Fun.args |-> WireG(OneArgs(Fun)[i])]))

(* the generated function is called *)
CallExp(f, as) ==
  IF Len(as) # Len(f.args) THEN "reject"
  ELSE IF \A i \in DOMAIN as : Rep(f.args[i].ty, as[i]) THEN "send"
  ELSE IF \E i \in DOMAIN as : ~Acc(Findings, f.args[i].ty, Wire(as[i])) /\ ~Acc(Findings, f.args[i].ty, WireG(as[i])) THEN "reject"
  ELSE "any"
Called(as) ==
  /\ log' = Append(log, [f |-> cur, args |-> as, exp |-> CallExp(Fun, as), frame |-> [i \in DOMAIN as |-> WireG(as[i])]])
  /\ cur' = 0
  /\ UNCHANGED <<p, ph, size, cnt>>
Calls == Session = "calls" /\ Running /\ cur # 0
CallArgs == Calls /\ \E as \in Vectors(Fun, Cand) : Called(as)
CallFit == Calls /\ \E as \in Vectors(Fun, Ok) : Called(as)
CallCount == Calls /\ \E as \in Miscounted(Fun) : Len(as) # Len(Fun.args) /\ Called(as)

(* clients call the server; what is called between two barriers is concurrent *)
Clients == 1..3
E2e == Session = "e2e" /\ Running /\ cur # 0
Issue == E2e /\ \E c \in Clients : \E as0 \in Vectors(Fun, Ok) :
           LET as == IF Fun.tok THEN [as0 EXCEPT ![1] = Num(ToString(Len(log) + 1))] ELSE as0
               norm == [i \in DOMAIN as |-> Norm(Fun.args[i].ty, WireG(as[i]))]
           IN /\ log' = Append(log, [c |-> c, f |-> cur, args |-> as, norm |-> norm, items |-> Items(Fun, norm)])
              /\ cnt' = [cnt EXCEPT ![1][Fun.ns] = @ + 1]
              /\ cur' = 0
              /\ UNCHANGED <<p, ph, size>>
Barrier == /\ Session = "e2e" /\ Running /\ cur = 0 /\ log # <<>> /\ "f" \in DOMAIN log[Len(log)]
           /\ log' = Append(log, [barrier |-> TRUE])
           /\ UNCHANGED <<p, ph, size, cur, cnt>>

Finish == /\ ph = "run" /\ Len(log) >= Steps
          /\ ph' = "done"
          /\ UNCHANGED <<p, size, cur, cnt, log>>

Next == \/ AddNs \/ Combine \/ AddTypes \/ Typed \/ AddFn \/ AddArg \/ WrapArg \/ WrapOut \/ CloseFn \/ Wrote \/ Pick \/ Finish
        \/ RouteArgs \/ RouteFit \/ RouteCount \/ RouteOdd \/ RouteName \/ RouteOther
        \/ CallArgs \/ CallFit \/ CallCount
        \/ Issue \/ Barrier
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* The interface of the generated client of backend b: by namespace its types and functions *)
ApiOf(b) == [i \in DOMAIN p.nss |->
  [ns |-> p.nss[i].name, inb |-> i \in BackOf(b),
   types |-> {[name |-> x.name, docs |-> x.docs] : x \in {x \in Range(p.types) : x.ns = i}},
   fns |-> {[name |-> f.name, kind |-> f.kind, args |-> Len(f.args)] : f \in {f \in Range(p.fns) : f.ns = i}}]]

(* Properties of the model *)
Closed == \A b \in DOMAIN p.backs : \A f \in Range(p.fns) : f.ns \in BackOf(b) =>
             \A t \in RefsT(f.out) \union UNION {RefsT(f.args[i].ty) : i \in DOMAIN f.args} : NsOf(t) \in BackOf(b)
Unambiguous == ph = "run" => \A b \in DOMAIN p.backs : \A f \in Range(p.fns) : Cardinality(Handlers(b, p.nss[f.ns].name, f.name)) <= 1
Executed == Session = "route" /\ ph \in {"run", "done"} /\ log # <<>> =>
  \A b \in DOMAIN p.backs : \A n \in DOMAIN p.nss :
     cnt[b][n] = Cardinality({i \in DOMAIN log : log[i].b = b /\ log[i].x.f # 0 /\ p.fns[log[i].x.f].ns = n})
Model == Closed /\ Unambiguous /\ (ph = "done" => Executed)
(* values which the schema of a declared type accepts, when everything that it refers to is there *)
Witness(t) == LET all == Good(Ref(t), 3) IN SetToSeq(RandomSubset(IF Cardinality(all) > 8 THEN 8 ELSE Cardinality(all), all))
Emit == ph = "done" => PrintT("@@" \o ToJson([p |-> p, witness |-> [i \in DOMAIN p.types |-> Witness(p.types[i].t)], lib |-> [i \in DOMAIN p.types |-> Lib[p.types[i].t]], api |-> [b \in DOMAIN p.backs |-> ApiOf(b)], log |-> log]))
=============================================================================
