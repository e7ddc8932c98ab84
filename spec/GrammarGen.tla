----------------------------- MODULE GrammarGen -----------------------------
(* Random derivations of the grammar: each behaviour rewrites the leftmost  *)
(* pending symbol until a sentence (a sequence of token kinds) is left.     *)
EXTENDS Grammar, Json

VARIABLES pending,   \* what is still to be derived, leftmost first
          out,       \* the tokens derived so far
          budget     \* choices left before every derivation is cut short
gvars == <<pending, out, budget>>

\* Rewrite whatever leaves no choice.
RECURSIVE Settle(_, _)
Settle(p, o) ==
  IF p = <<>> THEN [p |-> p, o |-> o]
  ELSE LET e == p[1]  rest == Tail(p)
       IN  CASE e.t \in {"T", "K"} -> Settle(rest, Append(o, e.kind))
             [] e.t \in {"C", "Is"} -> Settle(rest, o)
             [] e.t = "S" -> Settle(e.es \o rest, o)
             [] e.t \in {"N", "M", "F"} -> Settle(<<e.e>> \o rest, o)
             [] e.t = "G" -> Settle(<<Prod[e.p]>> \o rest, o)
             [] OTHER -> [p |-> p, o |-> o]
Start(p, o, b) == LET s == Settle(p, o) IN pending = s.p /\ out = s.o /\ budget = b
GenInit == \E b \in {60, 150, 300, 600} : Start(<<G("class"), R(G("class"))>>, <<>>, b)

Step(p) == LET s == Settle(p, out)
           IN  pending' = s.p /\ out' = s.o /\ budget' = IF budget = 0 THEN 0 ELSE budget - 1
Derive ==
  /\ pending # <<>>
  /\ LET e == pending[1]  rest == Tail(pending)
         take(w) == budget > 0 /\ RandomElement(1..w) = 1
     IN  CASE e.t = "A" -> \E n \in {IF budget = 0 THEN Len(e.es) ELSE e.pick[RandomElement(DOMAIN e.pick)]} :
                             Step(<<e.es[n]>> \o rest)
           [] e.t = "O" -> \E b \in {take(e.w)} : Step(IF b THEN <<e.e>> \o rest ELSE rest)
           [] e.t = "R" -> \E b \in {take(e.w)} : Step(IF b THEN <<e.e, e>> \o rest ELSE rest)
Done == /\ pending = <<>> /\ out # <<"printed">>
        /\ PrintT(<<"SCRIPT", ToJson(out)>>)
        /\ out' = <<"printed">> /\ UNCHANGED <<pending, budget>>
GenNext == Derive \/ Done
GenSpec == GenInit /\ [][GenNext]_gvars
=============================================================================
