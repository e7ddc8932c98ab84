------------------------------ MODULE Graphs ------------------------------
(* The graph containers: vertices and edges with properties, added,        *)
(* changed and removed.  An undirected edge is seen from both ends.  The   *)
(* single-entry graphs have a hidden vertex, the entry: in the weakly      *)
(* connected one it has an edge to every vertex.                           *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES kind,     \* "directed", "undirected", "weak", "single"
          vert,     \* vertex -> value of its property
          edge      \* edge -> [a, b: ends, val: value of its property]
gvars == <<kind, vert, edge>>
Entry == -1
Ends == DOMAIN vert \cup (IF kind \in {"weak", "single"} THEN {Entry} ELSE {})

New(k) == kind' = k /\ vert' = <<>> /\ edge' = <<>>
AddVertex(x, v) == /\ x \notin DOMAIN vert /\ UNCHANGED <<kind, edge>>
                   /\ vert' = [y \in DOMAIN vert \cup {x} |-> IF y = x THEN v ELSE vert[y]]
AddEdge(x, a, b, v) == /\ x \notin DOMAIN edge /\ {a, b} \subseteq Ends /\ UNCHANGED <<kind, vert>>
                       /\ edge' = [y \in DOMAIN edge \cup {x} |-> IF y = x THEN [a |-> a, b |-> b, val |-> v] ELSE edge[y]]
Keep(f, S) == [y \in S |-> f[y]]
RemoveVertex(x) == /\ x \in DOMAIN vert /\ UNCHANGED kind
                   /\ vert' = Keep(vert, DOMAIN vert \ {x})
                   /\ edge' = Keep(edge, {y \in DOMAIN edge : edge[y].a # x /\ edge[y].b # x})
SetVertex(x, v) == x \in DOMAIN vert /\ vert' = [vert EXCEPT ![x] = v] /\ UNCHANGED <<kind, edge>>
SetEdge(x, v) == x \in DOMAIN edge /\ edge' = [edge EXCEPT ![x].val = v] /\ UNCHANGED <<kind, vert>>

(* What is seen.  Lists are compared as bags.                              *)
Once(s, S) == /\ Len(s) = Cardinality(S) /\ {s[k] : k \in DOMAIN s} = S
Bag(s, F(_), D) ==      \* s lists F(d) once for every d in D
  /\ Len(s) = Cardinality(D)
  /\ \A t \in {s[k] : k \in DOMAIN s} \cup {F(d) : d \in D} :
        Cardinality({k \in DOMAIN s : s[k] = t}) = Cardinality({d \in D : F(d) = t})
Even(v) == v % 2 = 0
Vertices == {<<x, vert[x], TRUE>> : x \in DOMAIN vert}
EvenVertices == {t \in Vertices : Even(t[2])}
EvenEdges == {y \in DOMAIN edge : Even(edge[y].val)}
(* All the edges: in an undirected graph either end may come first.        *)
EdgesAre(s, D) ==
  LET way(t) == IF kind = "undirected" THEN <<{t[1], t[2]}, t[3], t[4]>> ELSE t
  IN Once([k \in DOMAIN s |-> way(s[k])], {way(<<edge[y].a, edge[y].b, y, edge[y].val>>) : y \in D})
(* The edges leaving x, seen from x.                                       *)
Leaving(x) == {y \in DOMAIN edge : edge[y].a = x \/ (kind = "undirected" /\ edge[y].b = x)}
Other(y, x) == IF edge[y].a = x THEN edge[y].b ELSE edge[y].a
OutIs(s, x, D) == Once(s, {<<x, Other(y, x), y, edge[y].val>> : y \in D})
LinkedIs(s, x, D) ==
  LET by == [y \in D |-> Other(y, x)]
  IN /\ Len(s) = Cardinality(D)
     /\ \A w \in {s[k][1] : k \in DOMAIN s} \cup {by[y] : y \in D} :
          Cardinality({k \in DOMAIN s : s[k] = <<w, vert[w], TRUE>>}) = Cardinality({y \in D : by[y] = w})

(* Single-entry graphs: edges are only seen as pairs of ends.              *)
Hidden == IF kind = "weak" THEN {<<Entry, x>> : x \in DOMAIN vert} ELSE {}
Pairs == {<<0, y>> : y \in DOMAIN edge} \cup {<<1, h>> : h \in Hidden}
PairOf(p) == IF p[1] = 0 THEN <<edge[p[2]].a, edge[p[2]].b>> ELSE p[2]
PairsFrom(x) == {p \in Pairs : PairOf(p)[1] = x}
Arcs == {PairOf(p) : p \in Pairs}
Next1(X) == {t[2] : t \in {u \in Arcs : u[1] \in X}}
RECURSIVE From(_)
From(X) == LET Y == X \cup Next1(X) IN IF Y = X THEN X ELSE From(Y)
(* Every vertex reached from the entry once, the entry last, and nothing   *)
(* before what it leads to, unless that leads back to it.                  *)
PostOrderIs(s) ==
  /\ Once(s, From({Entry}))
  /\ s[Len(s)] = Entry
  /\ \A i, j \in DOMAIN s : (i < j /\ <<s[i], s[j]>> \in Arcs) => s[i] \in From({s[j]})
ComponentsAre(c) ==
  /\ \A k \in DOMAIN c : Len(c[k]) = Cardinality({c[k][j] : j \in DOMAIN c[k]})
  /\ Once([k \in DOMAIN c |-> {c[k][j] : j \in DOMAIN c[k]}],
          {{y \in From({x}) : x \in From({y})} : x \in From({Entry})})
  /\ \A i, j \in DOMAIN c : i < j =>       \* what is led to comes first
        \A x \in {c[i][k] : k \in DOMAIN c[i]} : \A y \in {c[j][k] : k \in DOMAIN c[j]} : <<x, y>> \notin Arcs
=============================================================================
