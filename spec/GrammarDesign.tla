--------------------------- MODULE GrammarDesign ---------------------------
(* The grammar read as a plain context-free grammar (choices unordered,     *)
(* repetitions of any length) against the recogniser of Grammar, on every   *)
(* string of at most MaxLen tokens of Alphabet: the same strings belong to  *)
(* production Start, each has one tree, and it is the recogniser's.         *)
EXTENDS Grammar, FiniteSets, Json
CONSTANTS Start, Alphabet, MaxLen

\* Every way of reading e from position i.
RECURSIVE Every(_, _, _), EverySeq(_, _, _, _)
Every(e, toks, i) ==
  CASE e.t = "T" -> IF toks[i].k = e.kind THEN {Result(i + 1, <<>>)} ELSE {}
    [] e.t = "K" -> IF toks[i].k = e.kind THEN {Result(i + 1, <<Leaf(e.k, toks[i].s)>>)} ELSE {}
    [] e.t = "C" -> {Result(i, <<Leaf(e.k, e.a)>>)}
    [] e.t = "S" -> EverySeq(e.es, 1, toks, {Result(i, <<>>)})
    [] e.t = "A" -> UNION {Every(e.es[n], toks, i) : n \in DOMAIN e.es}
    [] e.t = "O" -> {Result(i, <<>>)} \cup Every(e.e, toks, i)
    [] e.t = "R" -> {Result(i, <<>>)} \cup
                    UNION {{Result(r.i, q.v \o r.v) : r \in Every(e, toks, q.i)} :
                           q \in {q \in Every(e.e, toks, i) : q.i > i}}
    [] e.t = "G" -> Every(Prod[e.p], toks, i)
    [] e.t = "Is" -> IF toks[i].k \in e.kinds THEN {Result(i, <<>>)} ELSE {}
    [] e.t = "N" -> {Result(r.i, <<Node(e.k, e.a, r.v)>>) : r \in Every(e.e, toks, i)}
    [] e.t = "M" -> {Result(r.i, <<Node(e.k, r.v[1].a, Tail(r.v))>>) : r \in Every(e.e, toks, i)}
    [] e.t = "F" -> {Result(r.i, Build(e.f, e.a, r.v).v) :
                     r \in {r \in Every(e.e, toks, i) : Build(e.f, e.a, r.v).ok}}
EverySeq(es, n, toks, rs) ==
  IF n > Len(es) \/ rs = {} THEN rs
  ELSE EverySeq(es, n + 1, toks,
                UNION {{Result(r.i, q.v \o r.v) : r \in Every(es[n], toks, q.i)} : q \in rs})

Whole(rs, toks) == {r \in rs : toks[r.i].k = "EndOfFile"}
Agree(p, toks) ==
  LET all == Whole(Every(Prod[p], toks, 1), toks)
      one == Whole({r \in {Parse(Prod[p], toks, 1)} : r.ok}, toks)
  IN  all = one

VARIABLE text
Tokens(ks) == [k \in 1..(Len(ks) + 1) |-> IF k > Len(ks) THEN [k |-> "EndOfFile", s |-> ""]
                                          ELSE [k |-> ks[k], s |-> "x"]]
Init == text = <<>>
Next == Len(text) < MaxLen /\ \E t \in Alphabet : text' = Append(text, t)
Spec == Init /\ [][Next]_text
OneTree == Agree(Start, Tokens(text))
\* The sentences, to be parsed for real.
Shown == LET toks == Tokens(text)
         IN  Whole({r \in {Parse(Prod[Start], toks, 1)} : r.ok}, toks) # {} => PrintT(<<"SCRIPT", ToJson(text)>>)
=============================================================================
