---------------------------- MODULE GraphsTrace ----------------------------
EXTENDS Graphs, TraceKit

Shown ==
  /\ Once(E.v, Vertices) /\ Once(E.fv, EvenVertices)
  /\ E.nv = Cardinality(DOMAIN vert) /\ E.ne = Cardinality(DOMAIN edge)
  /\ EdgesAre(E.e, DOMAIN edge) /\ EdgesAre(E.fe, EvenEdges)
  /\ {E.around[k].x : k \in DOMAIN E.around} = DOMAIN vert
  /\ \A k \in DOMAIN E.around :
       LET o == E.around[k]
           L == Leaving(o.x)
           even == {y \in L : Even(vert[Other(y, o.x)])}
       IN /\ OutIs(o.out, o.x, L) /\ OutIs(o.fout, o.x, L \cap EvenEdges)
          /\ LinkedIs(o.link, o.x, L) /\ LinkedIs(o.flink, o.x, even)
ShownSingle ==
  /\ Once(E.v, {<<x, vert[x]>> : x \in DOMAIN vert}) /\ E.nv = Cardinality(DOMAIN vert) + 1
  /\ Bag(E.e, PairOf, Pairs)
  /\ {E.around[k].x : k \in DOMAIN E.around} = Ends
  /\ \A k \in DOMAIN E.around :
       LET o == E.around[k]
       IN /\ Bag(o.out, PairOf, PairsFrom(o.x))
          /\ Bag(o.link, LAMBDA p : PairOf(p)[2], PairsFrom(o.x))

TraceNext ==
  \/ IsEvent("new") /\ New(E.kind)
  \/ IsEvent("addv") /\ AddVertex(E.x, E.val)
  \/ IsEvent("adde") /\ AddEdge(E.x, E.a, E.b, E.val)
  \/ IsEvent("rmv") /\ RemoveVertex(E.x)
  \/ IsEvent("setv") /\ SetVertex(E.x, E.val)
  \/ IsEvent("sete") /\ SetEdge(E.x, E.val)
  \/ IsEvent("getv") /\ E.val = vert[E.x] /\ UNCHANGED gvars
  \/ IsEvent("gete") /\ E.val = edge[E.x].val /\ UNCHANGED gvars
  \/ IsEvent("show") /\ (IF kind \in {"weak", "single"} THEN ShownSingle ELSE Shown) /\ UNCHANGED gvars
  \/ IsEvent("walk") /\ PostOrderIs(E.post) /\ ComponentsAre(E.sccs) /\ UNCHANGED gvars

TraceInit == kind = "directed" /\ vert = <<>> /\ edge = <<>> /\ l = 1
TraceSpec == TraceInit /\ [][TraceNext]_<<gvars, l>>
=============================================================================
