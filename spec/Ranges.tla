------------------------------- MODULE Ranges -------------------------------
(* Points, intervals and boxes are immutable values, so the state machine   *)
(* has no state: every call is one step whose answer is a function of its   *)
(* arguments.  `ask` holds the last call, for the benefit of generation.    *)
EXTENDS Boxes
VARIABLE ask

Same(x, y)     == x = y
Contained(x, y) == BoxPts(y) \subseteq BoxPts(x)
Meet(x, y)     == BoxPts(x) \cap BoxPts(y)
AnyDim(x, y)   == \E k \in DOMAIN x : Iv(x[k]) \cap Iv(y[k]) # {}
Order(x, y)    == LexCmp(Flat(x), Flat(y))
(* Two different boxes can be merged when their union is a box and they     *)
(* agree in all dimensions but one, where they overlap or touch.            *)
Differ(x, y)   == {k \in DOMAIN x : x[k] # y[k]}
Touch(x, y, k) == x[k][1] <= y[k][2] /\ y[k][1] <= x[k][2]
Mergeable(x, y) == \E k \in DOMAIN x : Differ(x, y) = {k} /\ Touch(x, y, k)

Opt(c, x) == IF c THEN <<x>> ELSE <<>>
IsOpt(ans, c, S) ==      \* the answer is present iff c, and is a box over S
  IF c THEN Len(ans) = 1 /\ WellFormed(ans[1]) /\ BoxPts(ans[1]) = S ELSE ans = <<>>
=============================================================================
