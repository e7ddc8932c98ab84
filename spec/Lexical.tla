------------------------------ MODULE Lexical ------------------------------
(***************************************************************************)
(* The lexical grammar of Base Modelica.  A text is a sequence of          *)
(* character codes.  The lexer is a machine that holds the text and a      *)
(* cursor; each scan skips blanks and comments and hands out the longest   *)
(* token that starts there.                                                *)
(***************************************************************************)
EXTENDS LexicalTables, FiniteSets

Blank == {9, 10, 11, 12, 13, 32}
Digit == 48..57
NonDigit == (65..90) \cup (97..122) \cup {95}
Quote == 39      DQuote == 34      Back == 92     Newline == 10
Slash == 47      Star == 42        PointC == 46   Dollar == 36
ExpMark == {69, 101}               Sign == {43, 45}

At(t, p) == IF p >= 1 /\ p <= Len(t) THEN t[p] ELSE 0

\* The last position of the longest run of characters of S from p on.
RECURSIVE RunEnd(_, _, _)
RunEnd(t, p, S) == IF At(t, p) \in S /\ p <= Len(t) THEN RunEnd(t, p + 1, S) ELSE p - 1

\* The text ends at the first NUL.
Upto0(t) == SubSeq(t, 1, RunEnd(t, 1, 1..255))

(*------------------------------- positions -------------------------------*)
\* A newline belongs to the line that it opens, before its first column.
LineOf(t, p) == 1 + Cardinality({q \in 1..p : q <= Len(t) /\ t[q] = Newline})
ColOf(t, p) == LET nl == {q \in 1..p : q <= Len(t) /\ t[q] = Newline}
               IN  IF nl = {} THEN p ELSE p - (CHOOSE q \in nl : \A r \in nl : r <= q)
PosOf(t, p) == <<LineOf(t, p), ColOf(t, p)>>

(*------------------------- quoted texts and comments ---------------------*)
Escaped(c) == CASE c = 97 -> 7 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10
                [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11 [] OTHER -> c

\* From p on, up to the delimiter d: [last, closed, value].
RECURSIVE Quoted(_, _, _, _)
Quoted(t, p, d, acc) ==
  IF p > Len(t) THEN [last |-> Len(t), closed |-> FALSE, value |-> acc]
  ELSE IF t[p] = d THEN [last |-> p, closed |-> TRUE, value |-> acc]
  ELSE IF t[p] = Back
       THEN IF p = Len(t) THEN [last |-> p, closed |-> FALSE, value |-> acc]
            ELSE Quoted(t, p + 2, d, Append(acc, Escaped(t[p + 1])))
  ELSE Quoted(t, p + 1, d, Append(acc, t[p]))

\* The last character of the comment whose body starts at p; 0 when it never ends.
RECURSIVE CommentEnd(_, _)
CommentEnd(t, p) ==
  IF p >= Len(t) THEN 0
  ELSE IF t[p] = Star /\ t[p + 1] = Slash THEN p + 1
  ELSE CommentEnd(t, p + 1)

\* The first position from p on that is neither blank nor within a comment.
\* Stops at an unterminated comment.
Unclosed(t, p) == At(t, p) = Slash /\ At(t, p + 1) = Star /\ CommentEnd(t, p + 2) = 0
RECURSIVE Skip(_, _)
Skip(t, p) ==
  IF p > Len(t) THEN p
  ELSE IF t[p] \in Blank THEN Skip(t, p + 1)
  ELSE IF t[p] = Slash /\ At(t, p + 1) = Slash THEN Skip(t, RunEnd(t, p, (1..255) \ {Newline}) + 1)
  ELSE IF t[p] = Slash /\ At(t, p + 1) = Star /\ ~Unclosed(t, p) THEN Skip(t, CommentEnd(t, p + 2) + 1)
  ELSE p

(*-------------------------------- numbers --------------------------------*)
\* [last, kind, int, frac, neg, exp]: the parts are runs of digit codes.
Number(t, p) ==
  LET i == RunEnd(t, p, Digit)
      dot == At(t, i + 1) = PointC
      f == IF dot THEN RunEnd(t, i + 2, Digit) ELSE i
      m == IF At(t, f + 1) \in ExpMark THEN f + 1 ELSE 0
      s == IF m # 0 /\ At(t, m + 1) \in Sign THEN m + 1 ELSE m
      x == IF m # 0 THEN RunEnd(t, s + 1, Digit) ELSE f
  IN  [last |-> x,
       kind |-> IF m # 0 /\ x = s THEN "Error"
                ELSE IF dot \/ m # 0 THEN "FloatingPoint" ELSE "Integer",
       int |-> SubSeq(t, p, i),
       frac |-> IF dot THEN SubSeq(t, i + 2, f) ELSE <<>>,
       neg |-> m # 0 /\ s # m /\ t[s] = 45,
       exp |-> IF m # 0 THEN SubSeq(t, s + 1, x) ELSE <<>>]

(*--------------------------------- a scan --------------------------------*)
NoVal == <<>>
\* The token at p, where neither a blank nor a closed comment starts.
Token(t, p) ==
  LET c == At(t, p) IN
  IF p > Len(t) THEN [k |-> "EndOfFile", last |-> p, v |-> NoVal, open |-> FALSE]
  ELSE IF c \in NonDigit \/ (c = Dollar /\ At(t, p + 1) \in NonDigit)
  THEN LET q == RunEnd(t, p + 1, NonDigit \cup Digit)
           w == SubSeq(t, p, q)
       IN  IF w \in DOMAIN Keywords THEN [k |-> Keywords[w], last |-> q, v |-> NoVal, open |-> FALSE]
           ELSE [k |-> "Identifier", last |-> q, v |-> w, open |-> FALSE]
  ELSE IF c \in {Quote, DQuote}
  THEN LET s == Quoted(t, p + 1, c, <<>>)
       IN  IF ~s.closed THEN [k |-> "Error", last |-> s.last, v |-> NoVal, open |-> TRUE]
           ELSE [k |-> IF c = Quote THEN "Identifier" ELSE "String", last |-> s.last, v |-> s.value, open |-> FALSE]
  ELSE IF c \in Digit
  THEN LET n == Number(t, p) IN [k |-> n.kind, last |-> n.last, v |-> n, open |-> FALSE]
  ELSE IF Unclosed(t, p) THEN [k |-> "Error", last |-> Len(t), v |-> NoVal, open |-> TRUE]
  ELSE IF <<c, At(t, p + 1)>> \in DOMAIN Symbols
  THEN [k |-> Symbols[<<c, At(t, p + 1)>>], last |-> p + 1, v |-> NoVal, open |-> FALSE]
  ELSE IF <<c>> \in DOMAIN Symbols THEN [k |-> Symbols[<<c>>], last |-> p, v |-> NoVal, open |-> FALSE]
  ELSE [k |-> "Error", last |-> p, v |-> NoVal, open |-> FALSE]

(*------------------------------- the machine -----------------------------*)
VARIABLES text, cursor, lexed
lvars == <<text, cursor, lexed>>
Open(t) == text' = Upto0(t) /\ cursor' = 1 /\ lexed' = <<>>
Scan == LET p == Skip(text, cursor)
            k == Token(text, p)
        IN  /\ cursor' = k.last + 1
            /\ lexed' = Append(lexed, [k |-> k.k, first |-> p, last |-> k.last, v |-> k.v, open |-> k.open])
            /\ UNCHANGED text
Finished == lexed # <<>> /\ lexed[Len(lexed)].k = "EndOfFile"
\* All the tokens from p on.
RECURSIVE ScanAll(_, _, _)
ScanAll(t, p, acc) ==
  LET q == Skip(t, p)
      k == Token(t, q)
      a == Append(acc, [k |-> k.k, first |-> q, last |-> k.last, v |-> k.v, open |-> k.open])
  IN  IF k.k = "EndOfFile" THEN a ELSE ScanAll(t, k.last + 1, a)

(*------------------------------ decimal numbers --------------------------*)
\* A number is 0.d * 10^p, with d neither starting nor ending with a zero.
RECURSIVE LeadingZeros(_, _)
LeadingZeros(d, k) == IF k < Len(d) /\ d[k + 1] = 0 THEN LeadingZeros(d, k + 1) ELSE k
RECURSIVE TrimEnd(_, _)
TrimEnd(d, n) == IF n > 0 /\ d[n] = 0 THEN TrimEnd(d, n - 1) ELSE SubSeq(d, 1, n)
Dec(d, p) == LET z == LeadingZeros(d, 0)
                 s == SubSeq(d, z + 1, Len(d))
                 m == TrimEnd(s, Len(s))
             IN  IF m = <<>> THEN [d |-> <<>>, p |-> 0] ELSE [d |-> m, p |-> p - z]
RECURSIVE DigitsLE(_, _, _)
DigitsLE(a, b, k) == IF k > Len(a) THEN TRUE
                     ELSE IF k > Len(b) THEN FALSE
                     ELSE IF a[k] # b[k] THEN a[k] < b[k]
                     ELSE DigitsLE(a, b, k + 1)
DecLE(a, b) == IF a.d = <<>> THEN TRUE ELSE IF b.d = <<>> THEN FALSE
               ELSE IF a.p # b.p THEN a.p < b.p ELSE DigitsLE(a.d, b.d, 1)

DigitsOf(codes) == [k \in DOMAIN codes |-> codes[k] - 48]
RECURSIVE ToNat(_, _, _)
ToNat(d, k, acc) == IF k > Len(d) THEN acc ELSE ToNat(d, k + 1, acc * 10 + d[k])
\* Far exponents are all alike: beyond any double.
Exponent(n) == LET e == DigitsOf(n.exp)
                   z == SubSeq(e, LeadingZeros(e, 0) + 1, Len(e))
                   v == IF Len(z) > 6 THEN 1000000 ELSE ToNat(z, 1, 0)
               IN  IF n.neg THEN -v ELSE v
ValueOf(n) == Dec(DigitsOf(n.int \o n.frac), Len(n.int) + Exponent(n))

\* The double whose rounding interval is [lo, hi] is the nearest to the literal.
Nearest(n, o) ==
  LET v == ValueOf(n)
  IN  /\ o.ok
      /\ DecLE(Dec(o.lo.i \o o.lo.f, Len(o.lo.i)), v)
      /\ o.top \/ DecLE(v, Dec(o.hi.i \o o.hi.f, Len(o.hi.i)))
MaxInt == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>
IntegerIs(n, o) ==
  LET v == ValueOf(n)
  IN  DecLE(v, Dec(MaxInt, 19)) => ~o.neg /\ Dec(o.d, Len(o.d)) = v
=============================================================================
