------------------------------- MODULE Values -------------------------------
(* Values of the language: tensors of numbers.  Reals are interpreted in     *)
(* the field of integers modulo P, so that sums, products and quotients are  *)
(* exact and an algebraic identity is decided by evaluating both sides at    *)
(* some point; comparisons use the centred representatives; functions such   *)
(* as sin are uninterpreted (one fixed arbitrary function each).  Integers   *)
(* are themselves, Booleans are 0 and 1.                                     *)
EXTENDS Integers, Sequences, TLC

P == 46337
R(x) == x % P
C(x) == LET r == x % P IN IF r > 23168 THEN r - P ELSE r
Num(t, x) == IF t = "r" THEN x % P ELSE x

RECURSIVE Power(_, _)
Power(b, n) ==
  IF n = 0 THEN 1
  ELSE LET h == Power((b * b) % P, n \div 2) IN IF n % 2 = 1 THEN (b * h) % P ELSE h
Inv(b) == Power(b % P, P - 2)

RECURSIVE IntPower(_, _)
IntPower(b, n) == IF n <= 0 THEN 1 ELSE b * IntPower(b, n - 1)

Tag(o) ==
  CASE o = "sin" -> 101 [] o = "cos" -> 211 [] o = "tan" -> 307 [] o = "asin" -> 401
    [] o = "acos" -> 503 [] o = "atan" -> 601 [] o = "sinh" -> 701 [] o = "cosh" -> 809
    [] o = "tanh" -> 907 [] o = "exp" -> 1009 [] o = "log" -> 1103 [] o = "log10" -> 1201
    [] o = "sqrt" -> 1301 [] o = "floor" -> 1409 [] o = "ceil" -> 1511 [] o = "pow" -> 1601
    [] o = "atan2" -> 1709 [] o = "mod" -> 1801 [] o = "rem" -> 1901 [] o = "integer" -> 2003
    [] OTHER -> Assert(FALSE, <<"no operation", o>>)
Hash(o, x) == ((x % P) * ((x + Tag(o)) % P) + 31 * Tag(o)) % P
Hash2(o, x, y) == (Hash(o, x) * ((y % P) + 7) + Hash(o, y)) % P

Bool(b) == IF b THEN 1 ELSE 0
Abs(x) == IF x < 0 THEN 0 - x ELSE x
TruncDiv(x, y) ==
  IF y = 0 THEN 0
  ELSE LET q == Abs(x) \div Abs(y) IN IF (x < 0) = (y < 0) THEN q ELSE 0 - q

\* One value of type t from one operand.
Apply1(o, t, x) ==
  CASE o = "neg" -> Num(t, 0 - x)
    [] o = "cast" -> (IF t = "b" THEN Bool(x % P # 0) ELSE IF t = "r" THEN R(x) ELSE C(x))
    [] o = "not" -> Bool(x = 0)
    [] o = "abs" -> Num(t, Abs(C(x)))
    [] o = "sign" -> (IF C(x) > 0 THEN 1 ELSE IF C(x) < 0 THEN Num(t, 0 - 1) ELSE 0)
    [] OTHER -> Hash(o, x)

\* One value of type t from two operands.
Apply2(o, t, x, y) ==
  CASE o = "add" -> Num(t, x + y)
    [] o = "sub" -> Num(t, x - y)
    [] o = "mul" -> (IF t = "r" THEN ((x % P) * (y % P)) % P ELSE x * y)
    [] o = "div" -> (IF t = "r" THEN ((x % P) * Inv(y)) % P ELSE TruncDiv(x, y))
    [] o = "pow" -> (IF t = "r"
                     THEN (IF C(y) \in 0 .. 8 THEN Power(x % P, C(y))
                           ELSE IF C(y) \in -8 .. -1 THEN Inv(Power(x % P, 0 - C(y)))
                           ELSE Hash2("pow", x, y))
                     ELSE IntPower(x, y))
    [] o = "eq" -> Bool(C(x) = C(y))
    [] o = "neq" -> Bool(C(x) # C(y))
    [] o = "gt" -> Bool(C(x) > C(y))
    [] o = "gte" -> Bool(C(x) >= C(y))
    [] o = "lt" -> Bool(C(x) < C(y))
    [] o = "lte" -> Bool(C(x) <= C(y))
    [] o = "and" -> Bool(x # 0 /\ y # 0)
    [] o = "or" -> Bool(x # 0 \/ y # 0)
    [] o = "max" -> Num(t, IF C(x) >= C(y) THEN C(x) ELSE C(y))
    [] o = "min" -> Num(t, IF C(x) <= C(y) THEN C(x) ELSE C(y))
    [] OTHER -> Hash2(o, x, y)

\* Tensors: t type code, s shape, d the elements in row-major order.
T(t, s, d) == [t |-> t, s |-> s, d |-> TLCEval(d)]
Scalar(t, x) == T(t, <<>>, <<x>>)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Fill(t, s, x) == T(t, s, [k \in 1 .. Prod(s) |-> x])
Val(a) == a.d[1]
As(t, a) == T(t, a.s, [k \in DOMAIN a.d |-> Num(t, a.d[k])])
Same(a, b) == a.s = b.s /\ \A k \in DOMAIN a.d : R(a.d[k]) = R(b.d[k])

Map1(o, t, a) == T(t, a.s, [k \in DOMAIN a.d |-> Apply1(o, t, a.d[k])])
Map2(o, t, a, b) ==
  IF a.s = <<>> THEN T(t, b.s, [k \in DOMAIN b.d |-> Apply2(o, t, a.d[1], b.d[k])])
  ELSE IF b.s = <<>> THEN T(t, a.s, [k \in DOMAIN a.d |-> Apply2(o, t, a.d[k], b.d[1])])
  ELSE IF a.s # b.s THEN Assert(FALSE, "shapes differ")
  ELSE T(t, a.s, [k \in DOMAIN a.d |-> Apply2(o, t, a.d[k], b.d[k])])

RECURSIVE DotSum(_, _, _, _, _, _, _)
DotSum(t, a, b, i, di, j, n) == \* n elements of a from i on with step 1 * b from j on with step di
  IF n = 0 THEN 0
  ELSE Apply2("add", t, Apply2("mul", t, a.d[i], b.d[j]), DotSum(t, a, b, i + 1, di, j + di, n - 1))
Product(t, a, b) ==
  IF a.s = <<>> \/ b.s = <<>> THEN Map2("mul", t, a, b)
  ELSE LET n == a.s[Len(a.s)]
           ra == IF Len(a.s) = 2 THEN a.s[1] ELSE 1
           cb == IF Len(b.s) = 2 THEN b.s[2] ELSE 1
       IN IF b.s[1] # n THEN Assert(FALSE, "shapes differ")
          ELSE T(t, SubSeq(a.s, 1, Len(a.s) - 1) \o SubSeq(b.s, 2, Len(b.s)),
                 [k \in 1 .. ra * cb |->
                    DotSum(t, a, b, ((k - 1) \div cb) * n + 1, cb, ((k - 1) % cb) + 1, n)])

RECURSIVE FoldD(_, _, _, _)
FoldD(o, t, d, z) == IF d = <<>> THEN z ELSE FoldD(o, t, Tail(d), Apply2(o, t, z, Head(d)))

(* Subscripting.  A subscript is [g, l]: g tells whether the dimension is    *)
(* kept, l lists the zero-based positions.                                   *)
One(i) == [g |-> FALSE, l |-> <<i>>]
RECURSIVE Off(_, _, _, _, _)
Off(k, j, subs, s, stride) ==
  IF j = 0 THEN 0
  ELSE LET n == Len(subs[j].l)
           i == subs[j].l[(k % n) + 1]
       IN IF i < 0 \/ i >= s[j] THEN Assert(FALSE, "subscript out of bounds")
          ELSE i * stride + Off(k \div n, j - 1, subs, s, stride * s[j])
Full(subs, s) == [j \in 1 .. Len(s) |-> IF j <= Len(subs) THEN subs[j]
                                        ELSE [g |-> TRUE, l |-> [k \in 1 .. s[j] |-> k - 1]]]
RECURSIVE Kept(_)
Kept(S) == IF S = <<>> THEN <<>>
           ELSE (IF Head(S).g THEN <<Len(Head(S).l)>> ELSE <<>>) \o Kept(Tail(S))
View(a, subs) ==
  LET S == Full(subs, a.s)
      n == Prod([j \in DOMAIN S |-> Len(S[j].l)])
  IN T(a.t, Kept(S), [k \in 1 .. n |-> a.d[1 + Off(k - 1, Len(S), S, a.s, 1)]])
\* Storing b (same shape as the view, or one element) through subscripts.
Put(a, subs, b) ==
  LET S == Full(subs, a.s)
      n == Prod([j \in DOMAIN S |-> Len(S[j].l)])
      at == [k \in 1 .. n |-> 1 + Off(k - 1, Len(S), S, a.s, 1)]
  IN IF n = 1 THEN [a EXCEPT !.d[at[1]] = Num(a.t, b.d[1])]
     ELSE IF Len(b.d) # n THEN Assert(FALSE, "shapes differ")
     ELSE [a EXCEPT !.d = [p \in DOMAIN a.d |->
             IF \E k \in 1 .. n : at[k] = p
             THEN Num(a.t, b.d[CHOOSE k \in 1 .. n : at[k] = p]) ELSE a.d[p]]]
=============================================================================
