--------------------------- MODULE LexicalDesign ---------------------------
(***************************************************************************)
(* The lexing machine against the grammar of tokens: on every text up to   *)
(* MaxLen over Alphabet, what the machine hands out is, at each place, the *)
(* longest text of some lexical class; what it skips is blank or comment;  *)
(* nothing is lost.  Every text is also printed, to be lexed for real.     *)
(***************************************************************************)
EXTENDS Lexical, Json
CONSTANTS Alphabet, MaxLen, Show

All(s, S) == \A k \in DOMAIN s : s[k] \in S
Last(s) == s[Len(s)]
IsWord(s) == \/ s[1] \in NonDigit /\ All(s, NonDigit \cup Digit)
             \/ Len(s) > 1 /\ s[1] = Dollar /\ s[2] \in NonDigit /\ All(Tail(s), NonDigit \cup Digit)
\* Whether position k of s is escaped: an odd run of backslashes precedes it.
EscapedAt(s, k) == Cardinality({j \in 2..(k - 1) : \A i \in j..(k - 1) : s[i] = Back}) % 2 = 1
IsQuoted(s, d) == /\ Len(s) >= 2 /\ s[1] = d /\ Last(s) = d /\ ~EscapedAt(s, Len(s))
                  /\ \A k \in 2..(Len(s) - 1) : s[k] = d => EscapedAt(s, k)
Digits(s) == s # <<>> /\ All(s, Digit)
IsMantissa(s) == \/ Digits(s)
                 \/ \E k \in 2..Len(s) : Digits(SubSeq(s, 1, k - 1)) /\ s[k] = PointC
                                          /\ All(SubSeq(s, k + 1, Len(s)), Digit)
IsExp(s) == /\ s # <<>> /\ s[1] \in ExpMark
            /\ \/ Digits(Tail(s))
               \/ Len(s) > 1 /\ s[2] \in Sign /\ Digits(SubSeq(s, 3, Len(s)))
IsNum(s) == \/ IsMantissa(s)
            \/ \E k \in 1..(Len(s) - 1) : IsMantissa(SubSeq(s, 1, k)) /\ IsExp(SubSeq(s, k + 1, Len(s)))
\* A mantissa and the beginning of an exponent with no digit.
IsBadNum(s) == \E k \in 1..(Len(s) - 1) :
                 /\ IsMantissa(SubSeq(s, 1, k))
                 /\ LET x == SubSeq(s, k + 1, Len(s))
                    IN  x[1] \in ExpMark /\ (Len(x) = 1 \/ (Len(x) = 2 /\ x[2] \in Sign))
IsToken(s) == s # <<>> /\ (IsWord(s) \/ IsQuoted(s, Quote) \/ IsQuoted(s, DQuote) \/ IsNum(s) \/ s \in DOMAIN Symbols)
IsComment(s) ==
  \/ Len(s) >= 2 /\ s[1] = Slash /\ s[2] = Slash /\ \A k \in 2..(Len(s) - 1) : s[k] # Newline
  \/ /\ Len(s) >= 4 /\ s[1] = Slash /\ s[2] = Star /\ s[Len(s) - 1] = Star /\ Last(s) = Slash
     /\ \A k \in 3..(Len(s) - 2) : ~(s[k] = Star /\ s[k + 1] = Slash)
RECURSIVE IsGap(_)
IsGap(s) == \/ s = <<>>
            \/ s[1] \in Blank /\ IsGap(Tail(s))
            \/ \E k \in 2..Len(s) : IsComment(SubSeq(s, 1, k)) /\ IsGap(SubSeq(s, k + 1, Len(s)))
CommentAhead(s) == Len(s) >= 2 /\ s[1] = Slash /\ s[2] \in {Slash, Star}

Prefix(p, n) == SubSeq(text, p, p + n - 1)
Longest(p) == LET S == {n \in 1..(Len(text) - p + 1) : IsToken(Prefix(p, n))}
              IN  IF S = {} THEN 0 ELSE CHOOSE n \in S : \A m \in S : m <= n
RightToken(x) ==
  LET rest == SubSeq(text, x.first, Len(text))
      s == SubSeq(text, x.first, x.last)
  IN  CASE x.k = "EndOfFile" -> x.first = Len(text) + 1
        [] x.k = "Error" /\ CommentAhead(rest) ->
             rest[2] = Star /\ x.open /\ x.last = Len(text) /\ ~IsComment(rest)
        [] x.k = "Error" -> \/ IsBadNum(s) /\ (x.last = Len(text) \/ ~IsNum(Append(s, text[x.last + 1])))
                            \/ ~x.open /\ x.last = x.first /\ Longest(x.first) = 0
                            \/ x.open /\ x.last = Len(text) /\ s[1] \in {Quote, DQuote}
                               /\ Longest(x.first) = 0
        [] OTHER -> ~CommentAhead(rest) /\ Longest(x.first) = Len(s)
RightPlace(k) ==
  LET from == IF k = 1 THEN 1 ELSE lexed[k - 1].last + 1
  IN  lexed[k].first >= from /\ IsGap(SubSeq(text, from, lexed[k].first - 1))

Agrees == \A k \in DOMAIN lexed : RightToken(lexed[k]) /\ RightPlace(k)
Complete == Finished => lexed = ScanAll(text, 1, <<>>)
\* No text keeps the machine busy for longer than it has characters.
Bounded == Len(lexed) <= Len(text) + 1

Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == \E t \in Texts : /\ text = t /\ cursor = 1 /\ lexed = <<>>
                         /\ (Show /\ Len(t) = MaxLen) => PrintT(<<"SCRIPT", ToJson(t)>>)
Next == ~Finished /\ Scan
Spec == Init /\ [][Next]_lvars /\ WF_lvars(Next)
Ends == <>Finished
=============================================================================
