------------------------------- MODULE Serial -------------------------------
(* Annotations of programs as documents: what a text means, and how a value  *)
(* is written.  A text is a sequence of tokens, each of them a tuple whose   *)
(* first component says what it is: <<"int", n>>, <<"id", word>>,            *)
(* <<"@", symbol, path>>, or a symbol such as <<"{">>.                       *)
(* A value is a record with sets of points, names and words; a document that *)
(* has been written (in any of the forms there are) and read again has the   *)
(* same value, and a text without a meaning is refused.                      *)
EXTENDS Boxes, TLC

Fail == [ok |-> FALSE, i |-> 0, v |-> <<>>]
Got(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
Is(ts, i, t) == i <= Len(ts) /\ ts[i][1] = t
IsId(ts, i, w) == Is(ts, i, "id") /\ ts[i][2] = w

(* Numbers; the language lets true and false stand for -1 and 0.             *)
IsInt(ts, i) == Is(ts, i, "int") \/ IsId(ts, i, "true") \/ IsId(ts, i, "false")
IntOf(t) == IF t[1] = "int" THEN t[2] ELSE IF t[2] = "true" THEN 0 - 1 ELSE 0
(* [a,b], both included, is never empty.                                     *)
IntervalAt(ts, i) ==
  IF Is(ts, i, "[") /\ IsInt(ts, i + 1) /\ Is(ts, i + 2, ",") /\ IsInt(ts, i + 3) /\ Is(ts, i + 4, "]")
  THEN IF IntOf(ts[i + 1]) <= IntOf(ts[i + 3]) THEN Got(i + 5, <<IntOf(ts[i + 1]), IntOf(ts[i + 3]) + 1>>) ELSE Fail
  ELSE Fail

RECURSIVE BoxAt(_, _)
BoxAt(ts, i) ==
  LET a == IntervalAt(ts, i)
  IN IF ~a.ok THEN Fail
     ELSE IF ~Is(ts, a.i, "[") THEN Got(a.i, <<a.v>>)
     ELSE LET r == BoxAt(ts, a.i) IN IF r.ok THEN Got(r.i, <<a.v>> \o r.v) ELSE Fail

RECURSIVE BoxesAt(_, _)
BoxesAt(ts, i) ==
  LET a == BoxAt(ts, i)
  IN IF ~a.ok THEN Fail
     ELSE IF ~Is(ts, a.i, ",") THEN Got(a.i, <<a.v>>)
     ELSE LET r == BoxesAt(ts, a.i + 1)
          IN IF r.ok /\ Len(r.v[1]) = Len(a.v) THEN Got(r.i, <<a.v>> \o r.v) ELSE Fail

SetAt(ts, i) ==
  IF ~Is(ts, i, "{") THEN Fail
  ELSE IF Is(ts, i + 1, "}") THEN Got(i + 2, {})
  ELSE LET r == BoxesAt(ts, i + 1)
       IN IF r.ok /\ Is(ts, r.i, "}") THEN Got(r.i + 1, Cover(r.v)) ELSE Fail

NameAt(ts, i) == IF Is(ts, i, "@") THEN Got(i + 1, ts[i][3]) ELSE Fail

(* @x, <@x> or <@x, {...}>                                                    *)
VariableAt(ts, i) ==
  IF ~Is(ts, i, "<")
  THEN LET n == NameAt(ts, i) IN IF n.ok THEN Got(n.i, [n |-> n.v, s |-> {}]) ELSE Fail
  ELSE LET n == NameAt(ts, i + 1)
       IN IF ~n.ok THEN Fail
          ELSE IF Is(ts, n.i, ">") THEN Got(n.i + 1, [n |-> n.v, s |-> {}])
          ELSE IF ~Is(ts, n.i, ",") THEN Fail
          ELSE LET s == SetAt(ts, n.i + 1)
               IN IF s.ok /\ Is(ts, s.i, ">") THEN Got(s.i + 1, [n |-> n.v, s |-> s.v]) ELSE Fail

(* <@x, @der_x> or <@x, @der_x, {...}>                                        *)
DerivativeAt(ts, i) ==
  LET n == NameAt(ts, i + 1)
      d == NameAt(ts, i + 3)
  IN IF ~(Is(ts, i, "<") /\ n.ok /\ Is(ts, i + 2, ",") /\ d.ok) THEN Fail
     ELSE IF Is(ts, d.i, ">") THEN Got(d.i + 1, [n |-> n.v, d |-> d.v, s |-> {}])
     ELSE IF ~Is(ts, d.i, ",") THEN Fail
     ELSE LET s == SetAt(ts, d.i + 1)
          IN IF s.ok /\ Is(ts, s.i, ">") THEN Got(s.i + 1, [n |-> n.v, d |-> d.v, s |-> s.v]) ELSE Fail

Directions == {"any", "forward", "backward", "unknown"}
DirectionAt(ts, i) == IF Is(ts, i, "id") /\ ts[i][2] \in Directions THEN Got(i + 1, ts[i][2]) ELSE Fail
PrintableAt(ts, i) ==
  IF IsId(ts, i, "true") \/ IsId(ts, i, "false") THEN Got(i + 1, [w |-> ts[i][2], s |-> {}])
  ELSE LET s == SetAt(ts, i) IN IF s.ok THEN Got(s.i, [w |-> "set", s |-> s.v]) ELSE Fail

ElementAt(k, ts, i) ==
  CASE k = "variable" -> VariableAt(ts, i)
    [] k = "derivative" -> DerivativeAt(ts, i)
    [] k = "direction" -> DirectionAt(ts, i)
    [] k = "printable" -> PrintableAt(ts, i)
RECURSIVE ElementsAt(_, _, _)
ElementsAt(k, ts, i) ==
  LET a == ElementAt(k, ts, i)
  IN IF ~a.ok THEN Fail
     ELSE IF ~Is(ts, a.i, ",") THEN Got(a.i, <<a.v>>)
     ELSE LET r == ElementsAt(k, ts, a.i + 1) IN IF r.ok THEN Got(r.i, <<a.v>> \o r.v) ELSE Fail
ListAt(k, ts, i) ==
  IF ~Is(ts, i, "[") THEN Fail
  ELSE IF Is(ts, i + 1, "]") THEN Got(i + 2, <<>>)
  ELSE LET r == ElementsAt(k, ts, i + 1) IN IF r.ok /\ Is(ts, r.i, "]") THEN Got(r.i + 1, r.v) ELSE Fail

(* Additional attributes without a value may follow: { }, { a, b }           *)
RECURSIVE IdsAt(_, _)
IdsAt(ts, i) ==
  IF ~Is(ts, i, "id") THEN Fail
  ELSE IF ~Is(ts, i + 1, ",") THEN Got(i + 1, <<ts[i][2]>>)
  ELSE LET r == IdsAt(ts, i + 2) IN IF r.ok /\ ts[i][2] \notin RangeOf(r.v) THEN Got(r.i, <<ts[i][2]>> \o r.v) ELSE Fail
Rest(ts, i) ==
  \/ i = Len(ts) + 1
  \/ i + 1 = Len(ts) /\ Is(ts, i, "{") /\ Is(ts, i + 1, "}")
  \/ /\ Is(ts, i, "{")
     /\ LET r == IdsAt(ts, i + 1) IN r.ok /\ r.i = Len(ts) /\ Is(ts, r.i, "}")

Map(s, f(_)) == [k \in DOMAIN s |-> f(s[k])]
Value(sets, names, words) == Got(0, [sets |-> sets, names |-> names, words |-> words])

(* Parts of an equation, in any order, each of them at most once.            *)
RECURSIVE PartsAt(_, _, _)
PartsAt(ts, i, acc) ==
  IF ~Is(ts, i, ",") THEN IF Rest(ts, i) THEN Got(i, acc) ELSE Fail
  ELSE IF ~Is(ts, i + 2, "=") THEN Fail
  ELSE IF IsId(ts, i + 1, "indices") THEN
       LET s == SetAt(ts, i + 3) IN IF s.ok THEN PartsAt(ts, s.i, [acc EXCEPT !.ix = s.v]) ELSE Fail
  ELSE IF IsId(ts, i + 1, "match") THEN
       LET s == VariableAt(ts, i + 3) IN IF s.ok THEN PartsAt(ts, s.i, [acc EXCEPT !.m = s.v]) ELSE Fail
  ELSE IF IsId(ts, i + 1, "schedule") THEN
       LET s == ListAt("direction", ts, i + 3) IN IF s.ok THEN PartsAt(ts, s.i, [acc EXCEPT !.w = s.v]) ELSE Fail
  ELSE Fail

NameOf(x) == x.n
SetOf(x) == x.s
WordOf(x) == x.w
Sets(s) == SelectSeq(s, LAMBDA x : x.w = "set")
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Join(Tail(s))
(* The derivatives are a map, seen in the order of the given names.          *)
Ordered(ds, names) == [k \in DOMAIN names |-> CHOOSE d \in RangeOf(ds) : d.n = names[k]]
Distinct(s) == Cardinality(RangeOf(s)) = Len(s)

(* The meaning of a text that annotates an operation of the given kind.      *)
Read(kind, ts, order) ==
  CASE kind \in {"add_equation", "equation_call"} ->
         LET s == SetAt(ts, 1) IN IF s.ok /\ Rest(ts, s.i) THEN Value(<<s.v>>, <<>>, <<"false">>) ELSE Fail
    [] kind = "equation_instance" ->
         LET r == PartsAt(ts, 1, [ix |-> {}, m |-> [n |-> "", s |-> {}], w |-> <<>>])
         IN IF r.ok THEN Value(<<r.v.ix, r.v.m.s>>, <<r.v.m.n>>, r.v.w) ELSE Fail
    [] kind = "schedule_block" ->
         LET w == ListAt("variable", ts, 3)
             r == ListAt("variable", ts, w.i + 3)
         IN IF /\ IsId(ts, 1, "writtenVariables") /\ Is(ts, 2, "=") /\ w.ok
               /\ Is(ts, w.i, ",") /\ IsId(ts, w.i + 1, "readVariables") /\ Is(ts, w.i + 2, "=") /\ r.ok
               /\ (r.i = Len(ts) + 1 \/ (r.i + 1 = Len(ts) /\ Is(ts, r.i, "{") /\ Is(ts, r.i + 1, "}")))
            THEN Value(Map(w.v, SetOf) \o Map(r.v, SetOf), Map(w.v, NameOf) \o <<"|">> \o Map(r.v, NameOf), <<"false">>)
            ELSE Fail
    [] kind = "printable_indices" ->
         LET r == ListAt("printable", ts, 1)
         IN IF r.ok /\ Rest(ts, r.i) THEN Value(Map(Sets(r.v), SetOf), <<>>, Map(r.v, WordOf)) ELSE Fail
    [] kind = "model" ->
         IF ts = <<>> THEN Value(<<>>, <<>>, <<>>)
         ELSE LET r == ListAt("derivative", ts, 3)
              IN IF IsId(ts, 1, "der") /\ Is(ts, 2, "=") /\ r.ok /\ r.i = Len(ts) + 1
                 THEN LET o == Ordered(r.v, order)
                      IN Value(Map(o, SetOf), Join(Map(o, LAMBDA d : <<d.n, d.d, d.n>>)), <<>>)
                 ELSE Fail
    [] kind = "range" ->
         LET r == IntervalAt(ts, 2)
         IN IF IsId(ts, 1, "range") /\ r.ok
            THEN Value(<<>>, <<>>, <<"a range " \o ToString(r.v[1]) \o ".." \o ToString(r.v[2])>>) ELSE Fail
    [] kind = "box" ->
         LET r == BoxAt(ts, 2)
             RECURSIVE Show(_)
             Show(b) == IF b = <<>> THEN "" ELSE " " \o ToString(b[1][1]) \o ".." \o ToString(b[1][2]) \o Show(Tail(b))
         IN IF IsId(ts, 1, "multidim_range") /\ r.ok
            THEN Value(<<>>, <<>>, <<"a box" \o Show(r.v)>>) ELSE Fail

(* What follows a complete attribute is up to the host language.             *)
Decided(kind, ts) ==
  CASE kind = "range" -> LET r == IntervalAt(ts, 2) IN ~r.ok \/ r.i = Len(ts) + 1
    [] kind = "box" -> LET r == BoxAt(ts, 2) IN ~r.ok \/ r.i = Len(ts) + 1
    [] OTHER -> TRUE

(* Writing: one of the texts that mean a value, here for sets of points.     *)
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listed(S \ {x})
RECURSIVE Between(_)
Between(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o <<<<",">>>> \o Between(Tail(s))
WriteInterval(x) == <<<<"[">>, <<"int", x>>, <<",">>, <<"int", x>>, <<"]">>>>
WritePoint(p) == Join([d \in DOMAIN p |-> WriteInterval(p[d])])
WriteSet(S) == <<<<"{">>>> \o Between([k \in 1..Cardinality(S) |-> WritePoint(Listed(S)[k])]) \o <<<<"}">>>>
=============================================================================
