------------------------------ MODULE Filters ------------------------------
(* Variable filters: the text the user passes on the command line, the      *)
(* entries it stands for, and what each entry selects.  Characters are      *)
(* bytes; the bounds of slices are kept as decimal texts, because they may  *)
(* exceed the integers of TLC; <<>> is the bound that was left open ($).    *)
EXTENDS Integers, Sequences, TLC

\* ---------------------------------------------------------------- lexing
Blank == {32} \cup 9..13
Digit == 48..57
Letter == (65..90) \cup (97..122) \cup {95}
Word == Digit \cup Letter \cup {46}
Slash == 47
Dollar == 36
Symbols == {40, 41, 91, 93, 44, 59, 58, Dollar}
Tok(k, s) == [k |-> k, s |-> s]
\* The end of the longest run of characters of C from position i.
RECURSIVE Run(_, _, _)
Run(t, i, C) == IF i <= Len(t) /\ t[i] \in C THEN Run(t, i + 1, C) ELSE i
\* A text ends at its first NUL.
RECURSIVE Upto(_, _)
Upto(t, i) == IF i > Len(t) \/ t[i] = 0 THEN SubSeq(t, 1, i - 1) ELSE Upto(t, i + 1)
RECURSIVE Lex(_, _, _)
Lex(t, i, out) ==
  IF i > Len(t) THEN out
  ELSE LET c == t[i]
       IN  CASE c \in Blank -> Lex(t, i + 1, out)
             [] c \in Letter ->
                  LET j == Run(t, i, Word)  s == SubSeq(t, i, j - 1)
                  IN  Lex(t, j, Append(out, IF s = <<100, 101, 114>> THEN Tok("der", s) ELSE Tok("name", s)))
             [] c \in Digit -> LET j == Run(t, i, Digit) IN Lex(t, j, Append(out, Tok("int", SubSeq(t, i, j - 1))))
             [] c = Slash ->
                  LET j == Run(t, i + 1, (0..255) \ {Slash})
                  IN  IF j > Len(t) THEN Append(out, Tok("bad", <<>>))
                      ELSE Lex(t, j + 1, Append(out, Tok("regex", SubSeq(t, i + 1, j - 1))))
             [] c \in Symbols -> Lex(t, i + 1, Append(out, Tok("sym", <<c>>)))
             [] OTHER -> Lex(t, i + 1, Append(out, Tok("bad", <<c>>)))

\* --------------------------------------------------------------- parsing
Sym(toks, i, c) == i <= Len(toks) /\ toks[i] = Tok("sym", <<c>>)
Kind(toks, i, k) == i <= Len(toks) /\ toks[i].k = k
Entry(t, s, r) == [t |-> t, s |-> s, r |-> r]
Bad == [ok |-> FALSE, i |-> 0, v |-> <<>>]
Good(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
RECURSIVE Plain(_)
Plain(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Plain(Tail(d)) ELSE d   \* no leading zeros
Bound(toks, i) == IF Sym(toks, i, Dollar) THEN Good(i + 1, <<>>)
                  ELSE IF Kind(toks, i, "int") THEN Good(i + 1, Plain(toks[i].s)) ELSE Bad
\* lower:upper, lower:upper ... ]
RECURSIVE Slices(_, _, _)
Slices(toks, i, v) ==
  LET a == Bound(toks, i)
  IN  IF ~a.ok \/ ~Sym(toks, a.i, 58) THEN Bad
      ELSE LET b == Bound(toks, a.i + 1)
               w == Append(v, <<a.v, b.v>>)
           IN  IF ~b.ok THEN Bad
               ELSE IF Sym(toks, b.i, 44) THEN Slices(toks, b.i + 1, w)
               ELSE IF Sym(toks, b.i, 93) THEN Good(b.i + 1, w) ELSE Bad
RECURSIVE Entries(_, _, _)
Entries(toks, i, v) ==
  IF i > Len(toks) THEN Good(i, v)
  ELSE CASE Sym(toks, i, 59) -> Entries(toks, i + 1, v)
         [] Kind(toks, i, "der") ->
              IF Sym(toks, i + 1, 40) /\ Kind(toks, i + 2, "name") /\ Sym(toks, i + 3, 41)
              THEN Entries(toks, i + 4, Append(v, Entry("der", toks[i + 2].s, <<>>))) ELSE Bad
         [] Kind(toks, i, "regex") ->
              IF toks[i].s # <<>>
              THEN Entries(toks, i + 1, Append(v, Entry("regex", toks[i].s, <<>>))) ELSE Bad
         [] Kind(toks, i, "name") ->
              IF ~Sym(toks, i + 1, 91) THEN Entries(toks, i + 1, Append(v, Entry("var", toks[i].s, <<>>)))
              ELSE LET r == Slices(toks, i + 2, <<>>)
                   IN  IF r.ok THEN Entries(toks, r.i, Append(v, Entry("var", toks[i].s, r.v))) ELSE Bad
         [] OTHER -> Bad
\* Whether a regular expression is well formed is Valid's to say.
Filter(text, Valid(_)) ==
  LET r == Entries(Lex(Upto(text, 1), 1, <<>>), 1, <<>>)
  IN  IF r.ok /\ \A k \in DOMAIN r.v : r.v[k].t = "regex" => Valid(r.v[k].s) THEN r ELSE Bad

\* ------------------------------------------------- the regular expressions
\* o: lit, any, set, not, cat, alt, star, plus, opt, bol, eol
\* A node: [o, c: the character or the ranges of a set, es: the operands]
RECURSIVE Ends(_, _, _), Star(_, _, _)
Ends(e, s, i) ==
  CASE e.o = "lit" -> IF i <= Len(s) /\ s[i] = e.c[1] THEN {i + 1} ELSE {}
    [] e.o = "any" -> IF i <= Len(s) THEN {i + 1} ELSE {}
    [] e.o = "set" -> IF i <= Len(s) /\ \E k \in DOMAIN e.es : s[i] \in e.es[k].c[1]..e.es[k].c[2] THEN {i + 1} ELSE {}
    [] e.o = "not" -> IF i <= Len(s) /\ \A k \in DOMAIN e.es : s[i] \notin e.es[k].c[1]..e.es[k].c[2] THEN {i + 1} ELSE {}
    [] e.o = "cat" -> UNION {Ends(e.es[2], s, j) : j \in Ends(e.es[1], s, i)}
    [] e.o = "alt" -> UNION {Ends(e.es[k], s, i) : k \in DOMAIN e.es}
    [] e.o = "star" -> Star(e.es[1], s, {i})
    [] e.o = "plus" -> UNION {Star(e.es[1], s, {j}) : j \in Ends(e.es[1], s, i)}
    [] e.o = "opt" -> {i} \cup Ends(e.es[1], s, i)
    [] e.o = "bol" -> IF i = 1 THEN {i} ELSE {}
    [] e.o = "eol" -> IF i = Len(s) + 1 THEN {i} ELSE {}
Star(e, s, S) == LET n == S \cup UNION {Ends(e, s, i) : i \in S} IN IF n = S THEN S ELSE Star(e, s, n)
Found(e, s) == \E i \in 1..(Len(s) + 1) : Ends(e, s, i) # {}
\* How it is written; the operands are parenthesised.
Paren(t) == <<40>> \o t \o <<41>>
RECURSIVE Written(_), Cat(_, _)
Cat(ts, n) == IF n > Len(ts) THEN <<>> ELSE ts[n] \o Cat(ts, n + 1)
Written(e) ==
  CASE e.o = "lit" -> IF e.c[1] \in Digit \cup Letter THEN e.c ELSE <<92>> \o e.c
    [] e.o = "any" -> <<46>>
    [] e.o = "set" -> <<91>> \o Cat([k \in DOMAIN e.es |-> <<e.es[k].c[1], 45, e.es[k].c[2]>>], 1) \o <<93>>
    [] e.o = "not" -> <<91, 94>> \o Cat([k \in DOMAIN e.es |-> <<e.es[k].c[1], 45, e.es[k].c[2]>>], 1) \o <<93>>
    [] e.o = "cat" -> Written(e.es[1]) \o Written(e.es[2])
    [] e.o = "alt" -> Paren(Written(e.es[1]) \o <<124>> \o Written(e.es[2]))
    [] e.o = "star" -> Paren(Written(e.es[1])) \o <<42>>
    [] e.o = "plus" -> Paren(Written(e.es[1])) \o <<43>>
    [] e.o = "opt" -> Paren(Written(e.es[1])) \o <<63>>
    [] e.o = "bol" -> <<94>>
    [] e.o = "eol" -> <<36>>

\* --------------------------------------------------------------- queries
Open == <<<<>>, <<>>>>
\* The slice of an entry, cut or completed to the rank that is asked for.
Fit(r, rank) == [k \in 1..rank |-> IF k <= Len(r) THEN r[k] ELSE Open]
Box(v, rs) == [visible |-> v, ranges |-> rs]
Of(entries, t, name) == SelectSeq(entries, LAMBDA e : e.t = t /\ e.s = name)
Hit(entries, name, Match(_, _)) == \E k \in DOMAIN entries : entries[k].t = "regex" /\ Match(entries[k].s, name)
\* Variables: the slices that name it, in order; failing that, all of it when
\* an expression matches or when there is no filter at all.
Variable(entries, name, rank, Match(_, _)) ==
  LET named == Of(entries, "var", name)
  IN  IF named # <<>> THEN [k \in DOMAIN named |-> Box(TRUE, Fit(named[k].r, rank))]
      ELSE <<Box(entries = <<>> \/ Hit(entries, name, Match), Fit(<<>>, rank))>>
\* Derivatives: always whole; der(name) is what expressions are matched with.
Der(name) == <<100, 101, 114, 40>> \o name \o <<41>>
Derivative(entries, name, rank, Match(_, _)) ==
  <<Box(Of(entries, "der", name) # <<>> \/ Hit(entries, Der(name), Match), Fit(<<>>, rank))>>
=============================================================================
