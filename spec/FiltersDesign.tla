--------------------------- MODULE FiltersDesign ---------------------------
(* Every text of at most MaxLen pieces of Words: what a filter stands for   *)
(* can be written down and read back, and the answers make sense together.  *)
EXTENDS Filters, Json
CONSTANTS Words, MaxLen   \* characters, or 1000 for der and 1001 for /x/
VARIABLES text, pieces

\* Expressions are literal texts here.
IsIn(r, s) == \E k \in 1..(Len(s) - Len(r) + 1) : SubSeq(s, k, k + Len(r) - 1) = r
AnyRegex(t) == TRUE
Read(t) == Filter(t, AnyRegex)

RECURSIVE Join(_, _)
Join(ts, sep) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o Join(Tail(ts), sep)
ShowBound(b) == IF b = <<>> THEN <<Dollar>> ELSE b
ShowEntry(e) ==
  CASE e.t = "der" -> Der(e.s)
    [] e.t = "regex" -> <<Slash>> \o e.s \o <<Slash>>
    [] OTHER -> e.s \o (IF e.r = <<>> THEN <<>>
                        ELSE <<91>> \o Join([k \in DOMAIN e.r |-> ShowBound(e.r[k][1]) \o <<58>> \o ShowBound(e.r[k][2])], <<44>>) \o <<93>>)
Show(v) == Join([k \in DOMAIN v |-> ShowEntry(v[k])], <<59>>)

Stable == LET r == Read(text) IN r.ok => Read(Show(r.v)).ok /\ Read(Show(r.v)).v = r.v
Sees(v, n) == \E k \in DOMAIN Variable(v, n, 1, IsIn) : Variable(v, n, 1, IsIn)[k].visible
SeesDer(v, n) == Derivative(v, n, 1, IsIn)[1].visible
X == <<120>>  Y == <<121>>
Sane ==
  LET r == Read(text)
  IN  r.ok =>
        /\ \A n \in {X, Y}, rank \in 0..3 :
             LET a == Variable(r.v, n, rank, IsIn) IN a # <<>> /\ \A k \in DOMAIN a : Len(a[k].ranges) = rank
        \* no filter: all the variables and none of the derivatives
        /\ r.v = <<>> => Sees(r.v, X) /\ ~SeesDer(r.v, X)
        \* the entries are independent of each other
        /\ \A n \in {X, Y} : r.v # <<>> => (Sees(r.v, n) <=> \E k \in DOMAIN r.v : Sees(<<r.v[k]>>, n))
        /\ \A n \in {X, Y} : r.v # <<>> => (SeesDer(r.v, n) <=> \E k \in DOMAIN r.v : SeesDer(<<r.v[k]>>, n))
Shown == Read(text).ok => PrintT(<<"SCRIPT", ToJson(text)>>)

Spelled(w) == IF w = 1000 THEN <<100, 101, 114>> ELSE IF w = 1001 THEN <<47, 120, 47>> ELSE <<w>>
Init == text = <<>> /\ pieces = 0
Next == pieces < MaxLen /\ pieces' = pieces + 1 /\ \E w \in Words : text' = text \o Spelled(w)
Spec == Init /\ [][Next]_<<text, pieces>>
=============================================================================
