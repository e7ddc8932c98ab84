----------------------------- MODULE RangesGen -----------------------------
(* Exhaustive enumeration of calls on intervals and boxes over a small      *)
(* universe, and of the algebraic laws the answers must satisfy.            *)
EXTENDS Ranges, TLC, Json
CONSTANTS Lo, Hi, Lo2, Hi2
Minus1 == -1
Minus2 == -2
Ivs(a, b) == {p \in (a .. b) \X (a .. b) : p[1] < p[2]}
B1 == {<<i>> : i \in Ivs(Lo, Hi)}
B2 == {<<i, j>> : i \in Ivs(Lo2, Hi2), j \in Ivs(Lo2, Hi2)}
Calls ==
  {[op |-> "range", x |-> x, y |-> y, v |-> v] : x \in B1, y \in B1, v \in {Lo, 0, 2}}
  \cup {[op |-> "pair", x |-> x, y |-> y] : x \in B1, y \in B1}
  \cup {[op |-> "pair", x |-> x, y |-> y] : x \in B2, y \in B2}
  \cup {[op |-> "box1", x |-> x, y |-> y, p |-> p, n |-> n, f |-> f] :
          x \in B2, y \in {<<<<0, 2>>>>}, p \in (Lo2 .. Hi2) \X {Lo2, 1},
          n \in {1, 2}, f \in {<<0, 1>>, <<1, 0>>, <<1, 1>>}}
Init == ask \in Calls
Next == FALSE /\ UNCHANGED ask
(* Laws of the specification itself.                                        *)
Laws ==
  ask.op = "pair" =>
    LET x == ask.x  y == ask.y IN
    /\ Order(x, y) = 0 - Order(y, x)
    /\ Order(x, y) = 0 <=> x = y
    /\ Mergeable(x, y) <=> Mergeable(y, x)
    /\ Mergeable(x, y) => BoxPts(Hull(x, y)) = BoxPts(x) \cup BoxPts(y)
    /\ Contained(x, y) => Meet(x, y) = BoxPts(y)
    /\ (Meet(x, y) # {}) <=> BoxOverlaps(x, y)
Emit == PrintT(<<"SCRIPT", ToJson(ask)>>)
=============================================================================
