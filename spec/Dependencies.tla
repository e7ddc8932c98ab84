---------------------------- MODULE Dependencies ----------------------------
(* Matched systems of array equations: which indices of which equations    *)
(* need which others, the graph this gives between equations and between   *)
(* parts of equations, its components, and what it means for a schedule to *)
(* respect it.                                                             *)
(*                                                                         *)
(* An equation has a set of points, a sequence of accesses, and the number *)
(* of the access to the variable it computes.  As in the compiler, the     *)
(* accesses staying within what the equation (or the part of it at hand)   *)
(* computes are writes, the others are reads.                              *)
EXTENDS AccessFunctions, TLC

VARIABLES vars,     \* the variable names
          eqs       \* equation name -> [s: points, acc: accesses, own: number]
dvars == <<vars, eqs>>

Tagged(v, S) == {<<v, q>> : q \in S}
Own(e) == eqs[e].acc[eqs[e].own]
(* What a part S of equation e computes and reads.                         *)
Computes(e, S) == Tagged(Own(e).v, MapSet(Own(e).f, S))
Via(e, k, S) == Tagged(eqs[e].acc[k].v, MapSet(eqs[e].acc[k].f, S))
ReadAccesses(e, S) == LET W == Computes(e, S) IN {k \in DOMAIN eqs[e].acc : ~(Via(e, k, S) \subseteq W)}
Reads(e, S) == UNION {Via(e, k, S) : k \in ReadAccesses(e, S)}

Edges(needs, gives) ==      \* two functions on the same domain, to sets
  {<<a, b>> \in (DOMAIN needs) \X (DOMAIN gives) : needs[a] \cap gives[b] # {}}
Succ(G, X) == {g[2] : g \in {h \in G : h[1] \in X}}
RECURSIVE Reach(_, _)
Reach(G, X) == LET Y == X \cup Succ(G, X) IN IF Y = X THEN X ELSE Reach(G, Y)
Mutual(G, a, b) == a = b \/ (b \in Reach(G, Succ(G, {a})) /\ a \in Reach(G, Succ(G, {b})))
Components(G, N) == {{b \in N : Mutual(G, a, b)} : a \in N}
RECURSIVE Acyclic(_, _)     \* repeatedly drop what needs nothing
Acyclic(G, N) ==
  \/ N = {}
  \/ LET D == {n \in N : Succ(G, {n}) \cap N = {}}
     IN D # {} /\ Acyclic(G, N \ D)

RangeOfSeq(s) == {s[k] : k \in DOMAIN s}
NamesOnce(sccs, N) ==       \* a sequence of sequences naming each element of N once
  /\ \A n \in N : Cardinality({<<k, j>> \in UNION {{<<c, d>> : d \in DOMAIN sccs[c]} : c \in DOMAIN sccs} : sccs[k][j] = n}) = 1
  /\ \A c \in DOMAIN sccs : sccs[c] # <<>> /\ RangeOfSeq(sccs[c]) \subseteq N

(* Array level.                                                            *)
ArrayEdges == Edges([e \in DOMAIN eqs |-> Reads(e, eqs[e].s)], [e \in DOMAIN eqs |-> Computes(e, eqs[e].s)])
(* Variable level: the computed variable needs the variables read.         *)
VariableEdges == UNION {{<<Own(e).v, eqs[e].acc[k].v>> : k \in ReadAccesses(e, eqs[e].s)} : e \in DOMAIN eqs}

GraphIs(nodes, edges, sccs, G, N) ==
  /\ RangeOfSeq(nodes) = N /\ Len(nodes) = Cardinality(N)
  /\ RangeOfSeq(edges) = G
  /\ NamesOnce(sccs, N)
  /\ {RangeOfSeq(sccs[c]) : c \in DOMAIN sccs} = Components(G, N)
(* An order of components in which nothing comes before what it needs.     *)
OrderIs(post, G, N) ==
  /\ NamesOnce(post, N)
  /\ {RangeOfSeq(post[c]) : c \in DOMAIN post} = Components(G, N)
  /\ \A c \in DOMAIN post : Succ(G, RangeOfSeq(post[c])) \subseteq UNION {RangeOfSeq(post[d]) : d \in 1 .. c}

(* Parts of equations: a part is a record [e, p].  The parts of an equation *)
(* partition it; the components are those of the graph between the parts.  *)
Parts(sccs) == {<<c, d>> \in UNION {{<<a, b>> : b \in DOMAIN sccs[a]} : a \in DOMAIN sccs} : TRUE}
CoversEquations(sccs) ==
  LET P == Parts(sccs)
  IN /\ \A x \in P : sccs[x[1]][x[2]].e \in DOMAIN eqs /\ sccs[x[1]][x[2]].p # {}
     /\ \A e \in DOMAIN eqs :
          LET Q == {x \in P : sccs[x[1]][x[2]].e = e}
          IN /\ UNION {sccs[x[1]][x[2]].p : x \in Q} = eqs[e].s
             /\ \A x, y \in Q : x # y => sccs[x[1]][x[2]].p \cap sccs[y[1]][y[2]].p = {}
(* What a part needs for sure: everything read besides what the part        *)
(* computes point by point.  An equation may have several accesses staying *)
(* within what it computes; which one of them computes is not known to the *)
(* analysis, which may then see needs between parts of the same equation   *)
(* that are not there.                                                     *)
PartReads(e, S) == UNION {Via(e, k, S) : k \in DOMAIN eqs[e].acc}
Writing(e) == DOMAIN eqs[e].acc \ ReadAccesses(e, eqs[e].s)
PartMayCompute(e, S) == UNION {Via(e, k, S) : k \in Writing(e)}
PartGraph(sccs, R(_, _), W(_, _)) ==
  LET P == Parts(sccs)
  IN Edges([x \in P |-> R(sccs[x[1]][x[2]].e, sccs[x[1]][x[2]].p)],
           [x \in P |-> W(sccs[x[1]][x[2]].e, sccs[x[1]][x[2]].p)])
AreComponents(sccs) ==
  /\ CoversEquations(sccs)
  /\ \A c \in DOMAIN sccs : sccs[c] # <<>>
  /\ LET sure == PartGraph(sccs, PartReads, Computes)
         may == PartGraph(sccs, PartReads, PartMayCompute)
         P == Parts(sccs)
         of(c) == {x \in P : x[1] = c}
     IN /\ Acyclic({<<g[1][1], g[2][1]>> : g \in {h \in sure : h[1][1] # h[2][1]}}, DOMAIN sccs)
        /\ \A c \in DOMAIN sccs : \A x \in of(c) : \A y \in of(c) : Mutual(may, x, y)

(* Schedules.  A schedule is a sequence of groups of [e, p, d]: equation,   *)
(* points, direction of every dimension.  Point q is walked before point p *)
(* if that holds whatever order the free dimensions are walked in.         *)
FirstDifference(p, q) == CHOOSE k \in DOMAIN p : p[k] # q[k] /\ \A j \in 1 .. (k - 1) : p[j] = q[j]
WalkedBefore(q, p, d) ==
  LET k == FirstDifference(p, q)
  IN \/ d[k] = "fwd" /\ q[k] < p[k]
     \/ d[k] = "bwd" /\ q[k] > p[k]
(* The needs at the level of single indices, for the parts given (a set of *)
(* records).                                                               *)
IndexReads(parts) ==
  LET N == UNION {Tagged(x.e, x.p) : x \in parts}
      of(n) == CHOOSE x \in parts : x.e = n[1] /\ n[2] \in x.p
  IN [n \in N |-> LET x == of(n) IN UNION {Via(n[1], k, {n[2]}) : k \in ReadAccesses(n[1], x.p)}]
IndexWrites(N) == [n \in N |-> Computes(n[1], {n[2]})]

ScheduleIs(given, sched) ==
  /\ CoversEquations(sched)
  /\ LET P == Parts(sched)
         needs == IndexReads({[e |-> given[x[1]][x[2]].e, p |-> given[x[1]][x[2]].p] : x \in Parts(given)})
         G == Edges(needs, IndexWrites(DOMAIN needs))
         of == [n \in DOMAIN needs |-> CHOOSE x \in P : sched[x[1]][x[2]].e = n[1] /\ n[2] \in sched[x[1]][x[2]].p]
         ordered(b, a) ==      \* b is done before a, or a and b are solved together
            LET x == of[a]
                y == of[b]
            IN \/ y[1] < x[1]
               \/ y[1] = x[1] /\ Len(sched[x[1]]) > 1
               \/ y[1] = x[1] /\ WalkedBefore(b[2], a[2], sched[x[1]][x[2]].d)
     IN /\ \A x \in P : LET y == sched[x[1]][x[2]]
                        IN /\ \A p \in y.p : Len(y.d) = Len(p)
                           /\ IF Len(sched[x[1]]) > 1 THEN \A k \in DOMAIN y.d : y.d[k] = "unk"
                              ELSE \A k \in DOMAIN y.d : y.d[k] \in {"any", "fwd", "bwd"}
        /\ \A g \in G : g[1] = g[2] \/ ordered(g[2], g[1]) \/ Mutual(G, g[1], g[2])
        \* what was given as one component stays one, unless it is a single equation
        /\ \A c \in DOMAIN given : Len(given[c]) > 1 =>
             \E k \in DOMAIN sched : {<<y.e, y.p>> : y \in RangeOfSeq(sched[k])} = {<<y.e, y.p>> : y \in RangeOfSeq(given[c])}
(* An order of single indices.                                             *)
ScalarOrderIs(order) ==
  LET needs == IndexReads({[e |-> e, p |-> eqs[e].s] : e \in DOMAIN eqs})
      G == Edges(needs, IndexWrites(DOMAIN needs))
      at == [n \in DOMAIN needs |-> CHOOSE k \in DOMAIN order : order[k] = n]
  IN /\ RangeOfSeq(order) = DOMAIN needs /\ Len(order) = Cardinality(DOMAIN needs)
     /\ \A g \in G : at[g[2]] <= at[g[1]] \/ Mutual(G, g[1], g[2])
=============================================================================
