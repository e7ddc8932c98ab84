---------------------------- MODULE RangesTrace ----------------------------
EXTENDS Ranges, TraceKit

X == E.x
Y == E.y

Pair ==
  /\ IsEvent("pair")
  /\ E.size = Cardinality(BoxPts(X)) /\ E.size = BoxVol(X)
  /\ E.sizes = [k \in DOMAIN X |-> Cardinality(Iv(X[k]))]
  /\ Enumerates(E.pts, BoxPts(X))
  /\ \A k \in 1 .. (Len(E.pts) - 1) : LexCmp(E.pts[k], E.pts[k + 1]) = -1
  /\ E.contains = Contained(X, Y)
  /\ E.overlaps = (Meet(X, Y) # {})
  /\ E.anyDim = AnyDim(X, Y)
  /\ E.eq = Same(X, Y) /\ E.ne = ~E.eq
  /\ E.cmp = Order(X, Y) /\ E.lt = (E.cmp < 0) /\ E.gt = (E.cmp > 0)
  /\ E.eq => E.hashEq
  /\ E.mergeable = Mergeable(X, Y)
  /\ IsOpt(E.merge, Mergeable(X, Y), BoxPts(X) \cup BoxPts(Y))
  /\ IsOpt(E.isect, Meet(X, Y) # {}, Meet(X, Y))
  /\ Partition(E.sub, BoxPts(X) \ BoxPts(Y))

Box1 ==
  /\ IsEvent("box1")
  /\ E.cp = (E.p \in BoxPts(X))
  /\ E.eqp = (BoxPts(X) = {E.p}) /\ E.nep = ~E.eqp
  /\ BoxPts(E.ofp) = {E.p}
  /\ E.tf = First(X, E.n) /\ E.sl = First(X, E.n) /\ E.tl = Last(X, E.n)
  /\ E.sf = Filter(X, E.f) /\ E.td = Filter(X, E.f)
  /\ E.df = Opt(E.n < Len(X), Last(X, Len(X) - E.n))
  /\ E.dl = Opt(E.n < Len(X), First(X, Len(X) - E.n))
  /\ E.app = X \o Y /\ E.pre = Y \o X

RangeEv ==
  LET x == X[1]  y == Y[1] IN
  /\ IsEvent("range")
  /\ E.size = Cardinality(Iv(x))
  /\ E.cv = (E.v \in Iv(x))
  /\ E.eqv = (Iv(x) = {E.v}) /\ E.nev = ~E.eqv
  /\ E.contains = (Iv(y) \subseteq Iv(x))
  /\ E.overlaps = (Iv(x) \cap Iv(y) # {})
  /\ E.eq = (x = y) /\ E.ne = ~E.eq
  /\ E.cmp = LexCmp(x, y) /\ E.lt = (E.cmp < 0) /\ E.gt = (E.cmp > 0)
  /\ E.eq => E.hashEq
  /\ E.mergeable = Touch(X, Y, 1)
  /\ E.merge = Opt(Touch(X, Y, 1), Hull(X, Y)[1])
  /\ IsOpt([k \in DOMAIN E.isect |-> <<E.isect[k]>>], Meet(X, Y) # {}, Meet(X, Y))
  /\ Partition([k \in DOMAIN E.sub |-> <<E.sub[k]>>], BoxPts(X) \ BoxPts(Y))
  /\ E.it = [k \in 1 .. Cardinality(Iv(x)) |-> x[1] + k - 1]

PointEv ==
  /\ IsEvent("point")
  /\ E.eq = (X = Y) /\ E.ne = ~E.eq
  /\ E.cmp = (IF Len(X) < Len(Y) THEN -1 ELSE IF Len(X) > Len(Y) THEN 1 ELSE LexCmp(X, Y))
  /\ E.lt = (E.cmp < 0)
  /\ E.eq => E.hashEq
  /\ E.app = X \o Y /\ E.rank = Len(X)
  /\ E.front = First(X, E.n) /\ E.back = Last(X, E.n)
  /\ E.sf = Filter(X, E.f)
  /\ E.at = X

TraceNext == (IsEvent("reset") \/ Pair \/ Box1 \/ RangeEv \/ PointEv) /\ ask' = l
TraceSpec == l = 1 /\ ask = 0 /\ [][TraceNext]_<<ask, l>>
=============================================================================
