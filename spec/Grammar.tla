------------------------------ MODULE Grammar ------------------------------
(* The grammar of Base Modelica that marco accepts, as data, and the syntax *)
(* tree each sentence stands for.                                           *)
(*                                                                          *)
(* A production is an expression over tokens that yields a sequence of tree *)
(* nodes.  Read as a recogniser (Parse) it consumes tokens from a position  *)
(* and returns the end and the nodes; the choices are ordered and the       *)
(* repetitions greedy.  Read as a generator (GrammarGen) it derives         *)
(* sentences.  GrammarDesign checks that the two readings agree and that    *)
(* the grammar is unambiguous, so that "the" tree of a sentence exists.     *)
EXTENDS Integers, Sequences, TLC

\* ------------------------------------------------------- the tree nodes
Node(k, a, c) == [k |-> k, a |-> a, c |-> c]
Leaf(k, a) == Node(k, a, <<>>)

\* --------------------------------------------------------- combinators
T(kind) == [t |-> "T", kind |-> kind]                    \* a token, no node
K(kind, k) == [t |-> "K", kind |-> kind, k |-> k]        \* a token, as a leaf
C(k, a) == [t |-> "C", k |-> k, a |-> a]                 \* nothing, a constant leaf
S(es) == [t |-> "S", es |-> es]                          \* one after the other
A(es) == [t |-> "A", es |-> es, pick |-> [n \in DOMAIN es |-> n]]
                                                         \* the first that fits; the
                                                         \* last one always terminates
AW(es, pick) == [t |-> "A", es |-> es, pick |-> pick]    \* with how often each is derived
O(e) == [t |-> "O", e |-> e, w |-> 2]                    \* optional
R(e) == [t |-> "R", e |-> e, w |-> 2]                    \* any number of times
Or(e) == [t |-> "O", e |-> e, w |-> 7]                   \* the same, rarely derived
Rr(e) == [t |-> "R", e |-> e, w |-> 7]
G(p) == [t |-> "G", p |-> p]                             \* another production
Is(kinds) == [t |-> "Is", kinds |-> kinds]               \* the next token is one of
N(k, a, e) == [t |-> "N", k |-> k, a |-> a, e |-> e]     \* a node of what e yields
M(k, e) == [t |-> "M", k |-> k, e |-> e]                 \* named by the first leaf
F(f, e) == [t |-> "F", f |-> f, a |-> "", e |-> e]       \* what Build makes of it
FA(f, a, e) == [t |-> "F", f |-> f, a |-> a, e |-> e]

List(e) == N("list", "", e)
Opt(e) == AW(<<e, C("none", "")>>, <<1, 2, 2>>)
Sep(e, sep) == S(<<e, R(S(<<T(sep), e>>))>>)
Sepr(e, sep) == S(<<e, Rr(S(<<T(sep), e>>))>>)
Op(kind, a) == S(<<T(kind), C("opk", a)>>)

\* --------------------------------------------------------- productions
Ident(k) == K("Identifier", k)
Prod == [
  root |-> N("root", "", R(G("class"))),
  \* ---- classes
  functionhead |->
    S(<<C("kind", "function"),
        A(<<S(<<T("Operator"), T("Function"), C("flag", "pure")>>),
            S(<<T("Pure"), O(T("Operator")), T("Function"), C("flag", "pure")>>),
            S(<<T("Impure"), O(T("Operator")), T("Function"), C("flag", "impure")>>),
            S(<<T("Function"), C("flag", "pure")>>)>>)>>),
  classhead |->
    S(<<A(<<S(<<T("Operator"), T("Record"), C("kind", "record")>>),
            S(<<T("Record"), C("kind", "record")>>),
            S(<<T("Package"), C("kind", "package")>>),
            S(<<T("Class"), C("kind", "model")>>),
            S(<<T("Model"), C("kind", "model")>>)>>), C("flag", "")>>),
  class |->
    AW(<<F("partial", S(<<G("functionhead"), Ident("id"), T("EqualityOperator"), T("Der"), T("LPar"),
                         G("expr"), List(R(S(<<T("Comma"), G("expr")>>))), T("RPar"),
                         O(T("String")), T("Semicolon")>>)),
        F("class", S(<<A(<<G("functionhead"), G("classhead")>>), Ident("id"), O(T("String")),
                       G("elements"),
                       R(A(<<S(<<T("Public"), C("visibility", "public"), G("elements")>>),
                             S(<<T("Protected"), C("visibility", "protected"), G("elements")>>),
                             G("algorithms"), G("equations")>>)),
                       Opt(G("external")),
                       Opt(S(<<G("annotation"), T("Semicolon")>>)),
                       T("End"), Ident("id"), T("Semicolon")>>))>>, <<1, 2, 2, 2, 2, 2, 2>>),
  elements |-> R(AW(<<G("class"), S(<<G("member"), T("Semicolon")>>)>>, <<1, 2, 2, 2, 2, 2, 2>>)),
  external |->
    F("external",
      S(<<T("External"), A(<<K("String", "language"), C("language", "C")>>),
          Opt(A(<<N("extcall", "", S(<<G("ref"), T("EqualityOperator"), Ident("id"), G("extargs")>>)),
                  N("extcall", "", S(<<C("none", ""), Ident("id"), G("extargs")>>))>>)),
          Opt(G("annotation")), T("Semicolon")>>)),
  extargs |-> S(<<T("LPar"), List(O(Sep(G("expr"), "Comma"))), T("RPar")>>),
  annotation |-> N("annotation", "", S(<<T("Annotation"), G("classmod")>>)),
  \* ---- members
  member |->
    F("member",
      S(<<O(T("Final")),
          M("prefix", S(<<A(<<Op("Discrete", "discrete"), Op("Parameter", "parameter"),
                              Op("Constant", "constant"), C("opk", "")>>),
                          A(<<S(<<T("Input"), C("io", "input")>>), S(<<T("Output"), C("io", "output")>>),
                              C("io", "")>>)>>)),
          G("type"), Ident("id"),
          Opt(S(<<Is({"LPar", "EqualityOperator"}), G("modification")>>)),
          O(T("String")), O(F("drop", G("annotation")))>>)),
  type |->
    F("type",
      S(<<A(<<S(<<T("Dot"), C("flag", "global")>>), C("flag", "local")>>),
          List(Sep(Ident("id"), "Dot")),
          List(O(S(<<T("LSquare"), Sep(G("dim"), "Comma"), T("RSquare")>>)))>>)),
  dim |->
    A(<<S(<<T("Colon"), C("dim", "-1")>>),
        S(<<K("Integer", "dim"), Is({"Comma", "RSquare"})>>),
        N("dim", "", G("expr"))>>),
  modification |->
    A(<<N("mod", "", S(<<G("classmod"), Opt(S(<<T("EqualityOperator"), G("expr")>>))>>)),
        N("mod", "", S(<<A(<<T("AssignmentOperator"), T("EqualityOperator")>>), C("none", ""), G("expr")>>))>>),
  classmod |-> N("classmod", "", S(<<T("LPar"), O(Sep(G("argument"), "Comma")), T("RPar")>>)),
  argument |->
    F("elementmod",
      S(<<A(<<S(<<T("Each"), C("flag", "each")>>), C("flag", "")>>),
          A(<<S(<<T("Final"), C("flag", "final")>>), C("flag", "")>>),
          Ident("id"), Opt(G("modification"))>>)),
  \* ---- equations and algorithms
  equations |->
    M("equations", S(<<A(<<S(<<T("Initial"), C("i", "initial")>>), C("i", "")>>), T("Equation"), G("eqs")>>)),
  eqs |-> R(S(<<G("equation"), T("Semicolon")>>)),
  algorithms |->
    M("algorithm", S(<<A(<<S(<<T("Initial"), C("i", "initial")>>), C("i", "")>>), T("Algorithm"), G("sts")>>)),
  sts |-> R(S(<<G("statement"), T("Semicolon")>>)),
  equation |->
    A(<<N("if_eq", "", S(<<T("If"), G("expr"), T("Then"), List(G("eqs")),
                           R(N("pair", "", S(<<T("ElseIf"), G("expr"), T("Then"), List(G("eqs"))>>))),
                           List(O(S(<<T("Else"), G("eqs")>>))), T("End"), T("If")>>)),
        N("when_eq", "", S(<<T("When"), G("expr"), T("Then"), List(G("eqs")),
                             R(N("pair", "", S(<<T("ElseWhen"), G("expr"), T("Then"), List(G("eqs"))>>))),
                             List(O(S(<<T("Else"), G("eqs")>>))), T("End"), T("When")>>)),
        N("for_eq", "", S(<<T("For"), List(G("indices")), T("Loop"), List(G("eqs")), T("End"), T("For")>>)),
        N("eq", "", S(<<G("simple"), T("EqualityOperator"), G("expr"), O(T("String"))>>))>>),
  statement |->
    A(<<N("if_st", "", S(<<T("If"), G("expr"), T("Then"), N("block", "", G("sts")),
                           R(N("pair", "", S(<<T("ElseIf"), G("expr"), T("Then"), N("block", "", G("sts"))>>))),
                           Opt(N("block", "", S(<<T("Else"), G("sts")>>))), T("End"), T("If")>>)),
        N("for_st", "", S(<<T("For"), List(G("indices")), T("Loop"), List(G("sts")), T("End"), T("For")>>)),
        N("while_st", "", S(<<T("While"), G("expr"), T("Loop"), List(G("sts")), T("End"), T("While")>>)),
        N("when_st", "", S(<<T("When"), G("expr"), T("Then"), List(G("sts")), T("End"), T("When")>>)),
        S(<<T("Break"), C("break", "")>>), S(<<T("Return"), C("return", "")>>),
        N("assign", "", S(<<N("tuple", "", S(<<T("LPar"), G("outputs"), T("RPar")>>)), T("AssignmentOperator"),
                            N("call", "", S(<<G("ref"), G("callargs")>>))>>)),
        F("simple", S(<<G("ref"), A(<<N("rhs", "", S(<<T("AssignmentOperator"), G("expr")>>)), G("callargs")>>)>>))>>),
  indices |-> Sep(G("index"), "Comma"),
  index |-> M("index", S(<<Ident("id"), Opt(S(<<T("In"), G("expr")>>))>>)),
  \* ---- expressions, from the weakest to the strongest binding
  expr |->
    AW(<<N("op", "ifelse", S(<<T("If"), G("expr"), T("Then"), G("expr"), T("Else"), G("expr")>>)),
         G("simple")>>, <<1, 2, 2, 2, 2, 2, 2, 2, 2>>),
  simple |-> FA("many", "range", S(<<G("logical"), Or(S(<<T("Colon"), G("logical"), Or(S(<<T("Colon"), G("logical")>>))>>))>>)),
  logical |-> FA("many", "lor", Sepr(G("logicalterm"), "Or")),
  logicalterm |-> FA("many", "land", Sepr(G("logicalfactor"), "And")),
  logicalfactor |-> AW(<<N("op", "lnot", S(<<T("Not"), G("relation")>>)), G("relation")>>, <<1, 2, 2, 2, 2, 2, 2>>),
  relation |->
    F("fold", S(<<G("arithmetic"),
                  Or(S(<<A(<<Op("Less", "less"), Op("LessEqual", "lessEqual"), Op("Greater", "greater"),
                            Op("GreaterEqual", "greaterEqual"), Op("Equal", "equal"), Op("NotEqual", "different")>>),
                        G("arithmetic")>>))>>)),
  arithmetic |->
    F("sum", S(<<AW(<<S(<<T("Minus"), C("neg", "")>>), T("Plus"), S(<<>>)>>, <<1, 2, 3, 3, 3, 3, 3, 3>>), G("term"),
                 Rr(S(<<A(<<Op("Plus", "add"), Op("PlusEW", "addEW"), Op("Minus", "subtract"),
                           Op("MinusEW", "subtractEW")>>), G("term")>>))>>)),
  term |->
    F("fold", S(<<G("factor"),
                  Rr(S(<<A(<<Op("Product", "multiply"), Op("ProductEW", "multiplyEW"), Op("Division", "divide"),
                            Op("DivisionEW", "divideEW")>>), G("factor")>>))>>)),
  factor |->
    F("fold", S(<<G("primary"), Rr(S(<<A(<<Op("Pow", "powerOf"), Op("PowEW", "powerOfEW")>>), G("primary")>>))>>)),
  primary |->
    AW(<<F("post", S(<<A(<<F("paren", S(<<T("LPar"), G("outputs"), T("RPar")>>)),
                          F("array", S(<<T("LCurly"), G("expr"),
                                         O(A(<<S(<<T("For"), N("indices", "", G("indices"))>>),
                                               S(<<T("Comma"), Sep(G("expr"), "Comma")>>)>>)), T("RCurly")>>)),
                          N("call", "", S(<<F("der", T("Der")), G("callargs")>>))>>),
                      Or(G("subscripts"))>>)),
        F("refcall", S(<<G("ref"), O(S(<<G("callargs"), Or(G("subscripts"))>>))>>)),
        S(<<T("True"), C("bool", "true")>>), S(<<T("False"), C("bool", "false")>>),
        K("String", "string"), K("FloatingPoint", "real"), K("Integer", "int")>>,
       <<1, 2, 2, 2, 3, 4, 5, 6, 7, 7>>),
  ref |->
    M("ref", S(<<A(<<S(<<T("Dot"), C("f", "global")>>), C("f", "local")>>), Sep(G("entry"), "Dot")>>)),
  entry |-> M("entry", S(<<Ident("id"), Or(G("subscripts"))>>)),
  subscripts |-> S(<<T("LSquare"), Sep(G("subscript"), "Comma"), T("RSquare")>>),
  subscript |-> A(<<S(<<T("Colon"), C("sub", "")>>), N("sub", "", G("expr"))>>),
  outputs |->
    O(A(<<S(<<T("Comma"), C("ref", "dummy"), G("outputs")>>),
          S(<<G("expr"), O(S(<<T("Comma"), G("outputs")>>))>>)>>)),
  callargs |-> List(S(<<T("LPar"), O(G("args")), T("RPar")>>)),
  args |->
    A(<<G("namedargs"),
        F("args", S(<<G("expr"), O(A(<<S(<<T("For"), N("indices", "", G("indices"))>>),
                                       S(<<T("Comma"), G("moreargs")>>)>>))>>))>>),
  moreargs |->
    A(<<G("namedargs"), S(<<N("arg", "", G("expr")), O(S(<<T("Comma"), G("moreargs")>>))>>)>>),
  namedargs |-> Sep(M("named", S(<<Ident("id"), T("EqualityOperator"), N("arg", "", G("expr"))>>)), "Comma") ]

\* ------------------------------------------------ what the nodes become
BuiltIn == {"Real", "Integer", "Boolean", "String"}

\* x op y op z, associated to the left
RECURSIVE Fold(_)
Fold(v) == IF Len(v) = 1 THEN v[1]
           ELSE LET n == Len(v)
                IN  Node("op", v[n - 1].a, <<Fold(SubSeq(v, 1, n - 2)), v[n]>>)
Select(v, k) == SelectSeq(v, LAMBDA x : x.k = k)
\* The members take the visibility of the last keyword before them.
RECURSIVE Members(_, _)
Members(v, vis) ==
  IF v = <<>> THEN <<>>
  ELSE CASE v[1].k = "visibility" -> Members(Tail(v), v[1].a)
         [] v[1].k = "member" -> <<[v[1] EXCEPT !.c = <<Leaf("flag", vis)>> \o @]>> \o Members(Tail(v), vis)
         [] OTHER -> Members(Tail(v), vis)

No == [ok |-> FALSE, v |-> <<>>]
Yes(v) == [ok |-> TRUE, v |-> v]
Build(f, a, v) ==
  CASE f = "partial" -> Yes(<<Node("partial_der", v[3].a, <<v[4], v[5]>>)>>)
    [] f = "class" ->
         LET n == Len(v)
             body == SubSeq(v, 4, n - 3)
             inner == SelectSeq(body, LAMBDA x : x.k \in {"model", "record", "package", "function", "partial_der"})
         IN  IF v[3].a # v[n].a THEN No
             ELSE Yes(<<Node(v[1].a, v[3].a,
                   <<v[2], Node("list", "", Members(body, "public")), Node("list", "", Select(body, "equations")),
                     Node("list", "", Select(body, "algorithm")), Node("list", "", inner), v[n - 2], v[n - 1]>>)>>)
    [] f = "external" ->
         Yes(<<Node("external", v[1].a,
             <<IF v[2].k = "none" THEN v[2] ELSE Node("extcall", v[2].c[2].a, <<v[2].c[1], v[2].c[3]>>), v[3]>>)>>)
    [] f = "drop" -> Yes(<<>>)
    [] f = "member" -> Yes(<<Node("member", v[3].a, <<v[1], v[2], v[4]>>)>>)
    [] f = "type" ->
         LET ids == v[2].c
         IN  IF ids[1].a \in BuiltIn
             THEN IF Len(ids) > 1 THEN No ELSE Yes(<<Node("type", ids[1].a, <<v[3]>>)>>)
             ELSE Yes(<<Node("usertype", "", <<v[1], v[2], v[3]>>)>>)
    [] f = "elementmod" -> Yes(<<Node("elementmod", v[3].a, <<v[1], v[2], v[4]>>)>>)
    [] f = "simple" ->
         IF v[2].k = "rhs" THEN Yes(<<Node("assign", "", <<Node("tuple", "", <<v[1]>>), v[2].c[1]>>)>>)
         ELSE Yes(<<Node("call_st", "", <<Node("call", "", v)>>)>>)
    [] f = "many" -> Yes(IF Len(v) = 1 THEN v ELSE <<Node("op", a, v)>>)
    [] f = "fold" -> Yes(<<Fold(v)>>)
    [] f = "sum" ->
         Yes(<<IF v[1].k = "neg" THEN Fold(<<Node("op", "negate", <<v[2]>>)>> \o SubSeq(v, 3, Len(v)))
               ELSE Fold(v)>>)
    [] f = "paren" -> Yes(IF Len(v) = 1 THEN v ELSE <<Node("tuple", "", v)>>)
    [] f = "array" ->
         Yes(IF Len(v) = 2 /\ v[2].k = "indices"
             THEN <<Node("array_for", "", <<v[1], Node("list", "", v[2].c)>>)>>
             ELSE <<Node("array", "", v)>>)
    [] f = "der" -> Yes(<<Node("ref", "local", <<Leaf("entry", "der")>>)>>)
    [] f = "post" -> Yes(IF Len(v) = 1 THEN v ELSE <<Node("op", "subscription", v)>>)
    [] f = "refcall" ->
         Yes(CASE Len(v) = 1 -> v
               [] Len(v) = 2 -> <<Node("call", "", v)>>
               [] OTHER -> <<Node("op", "subscription", <<Node("call", "", SubSeq(v, 1, 2))>> \o SubSeq(v, 3, Len(v)))>>)
    [] f = "args" ->
         Yes(IF Len(v) = 2 /\ v[2].k = "indices"
             THEN <<Node("reduction", "", <<v[1], Node("list", "", v[2].c)>>)>>
             ELSE <<Node("arg", "", <<v[1]>>)>> \o Tail(v))

\* ------------------------------------------------------------ recogniser
\* toks: tokens [k |-> kind, s |-> text], the last of kind EndOfFile.
Result(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
Fail == [ok |-> FALSE, i |-> 0, v |-> <<>>]

RECURSIVE Parse(_, _, _), ParseSeq(_, _, _, _, _), ParseAlt(_, _, _, _), ParseRep(_, _, _, _)
Parse(e, toks, i) ==
  CASE e.t = "T" -> IF toks[i].k = e.kind THEN Result(i + 1, <<>>) ELSE Fail
    [] e.t = "K" -> IF toks[i].k = e.kind THEN Result(i + 1, <<Leaf(e.k, toks[i].s)>>) ELSE Fail
    [] e.t = "C" -> Result(i, <<Leaf(e.k, e.a)>>)
    [] e.t = "S" -> ParseSeq(e.es, 1, toks, i, <<>>)
    [] e.t = "A" -> ParseAlt(e.es, 1, toks, i)
    [] e.t = "O" -> LET r == Parse(e.e, toks, i) IN IF r.ok THEN r ELSE Result(i, <<>>)
    [] e.t = "R" -> ParseRep(e.e, toks, i, <<>>)
    [] e.t = "G" -> Parse(Prod[e.p], toks, i)
    [] e.t = "Is" -> IF toks[i].k \in e.kinds THEN Result(i, <<>>) ELSE Fail
    [] e.t = "N" -> LET r == Parse(e.e, toks, i)
                    IN  IF r.ok THEN Result(r.i, <<Node(e.k, e.a, r.v)>>) ELSE Fail
    [] e.t = "M" -> LET r == Parse(e.e, toks, i)
                    IN  IF r.ok THEN Result(r.i, <<Node(e.k, r.v[1].a, Tail(r.v))>>) ELSE Fail
    [] e.t = "F" -> LET r == Parse(e.e, toks, i)
                    IN  IF ~r.ok THEN Fail
                        ELSE LET b == Build(e.f, e.a, r.v) IN IF b.ok THEN Result(r.i, b.v) ELSE Fail
ParseSeq(es, n, toks, i, v) ==
  IF n > Len(es) THEN Result(i, v)
  ELSE LET r == Parse(es[n], toks, i)
       IN  IF r.ok THEN ParseSeq(es, n + 1, toks, r.i, v \o r.v) ELSE Fail
ParseAlt(es, n, toks, i) ==
  IF n > Len(es) THEN Fail
  ELSE LET r == Parse(es[n], toks, i)
       IN  IF r.ok THEN r ELSE ParseAlt(es, n + 1, toks, i)
ParseRep(e, toks, i, v) ==
  LET r == Parse(e, toks, i)
  IN  IF r.ok /\ r.i > i THEN ParseRep(e, toks, r.i, v \o r.v) ELSE Result(i, v)

\* A text is accepted when the whole of it is a root; its tree is then known.
Accepts(r, toks) == r.ok /\ toks[r.i].k = "EndOfFile"
=============================================================================
