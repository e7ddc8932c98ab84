---------------------------- MODULE LexicalTrace ----------------------------
EXTENDS Lexical, TraceKit

ValueIs(x, o) ==
  CASE x.k \in {"Identifier", "String"} -> o.s = x.v
    [] x.k = "Integer" -> IntegerIs(x.v, o)
    [] x.k = "FloatingPoint" -> Nearest(x.v, o)
    [] OTHER -> TRUE
\* The tokens handed out (the last of them repeated: the end stays).
TokensAre(t, exp, got) ==
  /\ Len(got) = Len(exp) + 1
  /\ \A k \in DOMAIN got :
       LET x == exp[IF k > Len(exp) THEN Len(exp) ELSE k]
           o == got[k]
           \* nothing is said of the place of the end after an unterminated text
           placed == ~(x.k = "EndOfFile" /\ Len(exp) > 1 /\ exp[Len(exp) - 1].open)
       IN  /\ o.k = x.k /\ o.file
           /\ placed => o.b = PosOf(t, x.first) /\ o.e = PosOf(t, x.last)
           /\ ValueIs(x, o.v)
\* Only what the numbers among the tokens are worth.
NumbersAre(exp, got) ==
  LET num(s) == SelectSeq(s, LAMBDA x : x.k \in {"Integer", "FloatingPoint"})
      a == num(exp)   b == num(got)
  IN  /\ Len(a) = Len(b)
      /\ \A k \in DOMAIN a : a[k].k = b[k].k /\ ValueIs(a[k], b[k].v)

TraceNext ==
  \/ /\ IsEvent("lex") /\ Open(E.text)
     /\ TokensAre(text', ScanAll(text', 1, <<>>), E.toks) = TRUE
  \/ /\ IsEvent("num") /\ Open(E.text)
     /\ NumbersAre(ScanAll(text', 1, <<>>), E.toks) = TRUE

TraceInit == text = <<>> /\ cursor = 1 /\ lexed = <<>> /\ l = 1
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, l>>
=============================================================================
