------------------------------- MODULE Boxes -------------------------------
(* Points, half-open intervals and boxes as plain mathematical objects.     *)
(* A point is a tuple of integers, an interval a pair <<lo, hi>> standing   *)
(* for lo..hi-1, a box a tuple of intervals, a set of points a TLA+ set.    *)
EXTENDS Integers, Sequences, FiniteSets

Iv(iv) == iv[1] .. (iv[2] - 1)

RECURSIVE CartOf(_, _)
CartOf(b, k) ==      \* points of the first k dimensions
  IF k = 0 THEN {<<>>}
  ELSE {Append(p, x) : p \in CartOf(b, k - 1), x \in Iv(b[k])}

BoxPts(b) ==
  CASE Len(b) = 1 -> {<<x>> : x \in Iv(b[1])}
    [] Len(b) = 2 -> {<<x, y>> : x \in Iv(b[1]), y \in Iv(b[2])}
    [] Len(b) = 3 -> {<<x, y, z>> : x \in Iv(b[1]), y \in Iv(b[2]), z \in Iv(b[3])}
    [] OTHER      -> CartOf(b, Len(b))

RangeOf(s) == {s[k] : k \in DOMAIN s}
Cover(bs)  == UNION {BoxPts(bs[k]) : k \in DOMAIN bs}

RECURSIVE BoxVol(_)
BoxVol(b) == IF b = <<>> THEN 1 ELSE (Head(b)[2] - Head(b)[1]) * BoxVol(Tail(b))
RECURSIVE SumVol(_)
SumVol(bs) == IF bs = <<>> THEN 0 ELSE BoxVol(Head(bs)) + SumVol(Tail(bs))

WellFormed(b) == \A k \in DOMAIN b : b[k][1] < b[k][2]

(* A list of boxes is a partition of S: non-empty, pairwise disjoint, and   *)
(* together exactly S.  Disjointness follows from the volumes adding up.    *)
Partition(bs, S) ==
  /\ \A k \in DOMAIN bs : WellFormed(bs[k])
  /\ SumVol(bs) = Cardinality(S)
  /\ Cover(bs) = S

(* A list of points enumerates S: each point once.                          *)
Enumerates(ps, S) == Len(ps) = Cardinality(S) /\ RangeOf(ps) = S

(* Projections.                                                             *)
Filter(p, f) ==      \* keep the components selected by the 0/1 tuple f
  LET RECURSIVE go(_)
      go(k) == IF k = 0 THEN <<>>
               ELSE IF f[k] = 1 THEN Append(go(k - 1), p[k]) ELSE go(k - 1)
  IN go(Len(p))
First(p, n) == SubSeq(p, 1, n)
Last(p, n)  == SubSeq(p, Len(p) - n + 1, Len(p))

(* Lexicographic comparison of integer tuples of equal length.              *)
RECURSIVE LexCmp(_, _)
LexCmp(p, q) ==
  IF p = <<>> /\ q = <<>> THEN 0
  ELSE IF p = <<>> THEN -1
  ELSE IF q = <<>> THEN 1
  ELSE IF Head(p) < Head(q) THEN -1
  ELSE IF Head(p) > Head(q) THEN 1
  ELSE LexCmp(Tail(p), Tail(q))

RECURSIVE Flat(_)
Flat(b) == IF b = <<>> THEN <<>> ELSE Head(b) \o Flat(Tail(b))

(* The smallest box containing two boxes / a non-empty list of boxes.       *)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Hull(x, y) == [k \in DOMAIN x |-> <<Min2(x[k][1], y[k][1]), Max2(x[k][2], y[k][2])>>]
RECURSIVE HullAll(_)
HullAll(bs) == IF Len(bs) = 1 THEN bs[1] ELSE Hull(Head(bs), HullAll(Tail(bs)))

BoxOverlaps(x, y) == \A k \in DOMAIN x : x[k][1] < y[k][2] /\ y[k][1] < x[k][2]
=============================================================================
