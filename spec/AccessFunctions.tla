-------------------------- MODULE AccessFunctions --------------------------
(* Array access functions: from a tuple of induction values to the set of  *)
(* array elements accessed.  A result is an expression over the induction  *)
(* variables ("dim"), constants, whole ranges and the dimensions of named  *)
(* iteration spaces ("idx").  An "idx" with a non-empty list of            *)
(* dependencies is tied to the other tied uses of the same space: all of   *)
(* them stand for one point of it.  Division rounds towards minus infinity.*)
EXTENDS Boxes

RECURSIVE Vals(_, _, _, _)
Vals(e, p, env, sp) ==
  CASE e.k = "const" -> {e.v}
    [] e.k = "dim"   -> {p[e.d + 1]}
    [] e.k = "range" -> e.lo .. (e.hi - 1)
    [] e.k = "idx"   -> IF e.dep = <<>> THEN {q[e.d + 1] : q \in Cover(sp[e.s + 1])}
                        ELSE {env[e.s + 1][e.d + 1]}
    [] e.k = "add"   -> {x + y : x \in Vals(e.a, p, env, sp), y \in Vals(e.b, p, env, sp)}
    [] e.k = "sub"   -> {x - y : x \in Vals(e.a, p, env, sp), y \in Vals(e.b, p, env, sp)}
    [] e.k = "mul"   -> {x * y : x \in Vals(e.a, p, env, sp), y \in Vals(e.b, p, env, sp)}
    [] e.k = "div"   -> {x \div y : x \in Vals(e.a, p, env, sp), y \in Vals(e.b, p, env, sp)}

RECURSIVE Tied(_)
Tied(e) ==       \* the iteration spaces the expression is tied to
  CASE e.k \in {"add", "sub", "mul", "div"} -> Tied(e.a) \cup Tied(e.b)
    [] e.k = "idx" -> IF e.dep = <<>> THEN {} ELSE {e.s + 1}
    [] OTHER -> {}

RECURSIVE Product(_, _, _, _)
Product(f, k, p, env) ==
  IF k = 0 THEN {<<>>}
  ELSE {Append(q, v) : q \in Product(f, k - 1, p, env), v \in Vals(f.res[k], p, env, f.spaces)}

(* All choices of one point for every tied space.                          *)
RECURSIVE Choices(_, _)
Choices(f, T) ==
  IF T = {} THEN {<<>>}        \* never indexed
  ELSE LET s == CHOOSE x \in T : TRUE
           pts == Cover(f.spaces[s])
       IN  {[x \in (T \cap (DOMAIN c \cup {s})) |-> IF x = s THEN q ELSE c[x]] :
              c \in Choices(f, T \ {s}), q \in pts}

MapPoint(f, p) ==
  IF f.res = <<>> THEN {}
  ELSE UNION {Product(f, Len(f.res), p, env) :
                env \in Choices(f, UNION {Tied(f.res[k]) : k \in DOMAIN f.res})}
MapSet(f, S) == UNION {MapPoint(f, p) : p \in S}

RECURSIVE Multi(_)
Multi(e) == CASE e.k \in {"add", "sub", "mul", "div"} -> Multi(e.a) \/ Multi(e.b)
              [] e.k \in {"range", "idx"} -> TRUE
              [] OTHER -> FALSE
SingleValued(f) == \A k \in DOMAIN f.res : ~Multi(f.res[k])

(* The inverse image, as far as the code promises it: every point of the    *)
(* parent whose accessed elements all belong to the given set is there, and *)
(* no point is there which accesses nothing of it.  For a function that     *)
(* accesses one element these two bounds coincide.                          *)
MustInv(f, A, P) == {p \in P : MapPoint(f, p) # {} /\ MapPoint(f, p) \subseteq A}
MayInv(f, A, P)  == {p \in P : MapPoint(f, p) \cap A # {}}

(* The same access restricted to another number of dimensions.              *)
SameFunction(f, g, pts) == \A p \in pts : MapPoint(f, p) = MapPoint(g, p)

Grid(n) == CASE n = 1 -> {<<a>> : a \in {-2, 0, 1, 5}}
             [] n = 2 -> {<<a, b>> : a, b \in {-2, 0, 1, 5}}
             [] n = 3 -> {<<a, b, c>> : a, b, c \in {0, 1, 5}}
             [] OTHER -> {<<>>}

(* Semantic classification, judged on the grid.                             *)
Value(f, p) == CHOOSE q \in MapPoint(f, p) : TRUE
IsTranslationOf(f, k, d, pts) ==
  \E p0 \in pts : \A p \in pts : Value(f, p)[k] - p[d] = Value(f, p0)[k] - p0[d]
IsPermutation(f) ==
  /\ SingleValued(f) /\ f.dims = Len(f.res)
  /\ LET pts == Grid(f.dims)
     IN \A d \in 1 .. f.dims : \E k \in 1 .. f.dims : IsTranslationOf(f, k, d, pts)
IsIdentity(f) == SingleValued(f) /\ f.dims = Len(f.res) /\ (f.dims = 0 \/ \A p \in Grid(f.dims) : MapPoint(f, p) = {p})
IsConstantOnGrid(f) == \A p, q \in Grid(f.dims) : MapPoint(f, p) = MapPoint(f, q)
=============================================================================
