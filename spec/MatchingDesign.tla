--------------------------- MODULE MatchingDesign ---------------------------
(* Why the algorithm decides the property: over every bipartite graph with *)
(* NE equations and NV variables, leaf simplification never loses the      *)
(* perfect matching, flipping augmenting paths keeps a matching, keeps     *)
(* what is covered, and stops only at a maximum one.  Maximum (the oracle  *)
(* of the conformance check) is compared with an enumeration.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NE, NV
Es == 1 .. NE
Vs == 101 .. 100 + NV
VARIABLES adj, M, phase
vs == <<adj, M, phase>>

P == INSTANCE Matching WITH vars <- <<>>, eqs <- <<>>, inc <- {}

Init == adj \in [Es -> SUBSET Vs] /\ M = {} /\ phase = "leaves"
MatchedE(m) == {x[1] : x \in m}
MatchedV(m) == {x[2] : x \in m}
Free(m) == {<<e, v>> \in (Es \ MatchedE(m)) \X (Vs \ MatchedV(m)) : v \in adj[e]}
(* An unmatched vertex with one unmatched neighbour left.                  *)
Leaves == {x \in Free(M) : \/ \A y \in Free(M) : y[1] = x[1] => y = x
                           \/ \A y \in Free(M) : y[2] = x[2] => y = x}
LeafMatch == phase = "leaves" /\ \E x \in Leaves : M' = M \cup {x} /\ UNCHANGED <<adj, phase>>
Search == phase = "leaves" /\ phase' = "search" /\ UNCHANGED <<adj, M>>
(* Alternating paths of distinct vertices e1 v1 e2 v2 ... ek vk.           *)
RECURSIVE Grow(_)
Grow(path) ==       \* path ends in an equation
  LET e == path[Len(path)]
      nxt == {v \in adj[e] : <<e, v>> \notin M /\ \A k \in DOMAIN path : path[k] # v}
  IN UNION {IF v \notin MatchedV(M) THEN {Append(path, v)}
            ELSE LET o == CHOOSE x \in Es : <<x, v>> \in M
                 IN IF \E k \in DOMAIN path : path[k] = o THEN {} ELSE Grow(path \o <<v, o>>) : v \in nxt}
Paths == UNION {Grow(<<e>>) : e \in Es \ MatchedE(M)}
Flip(path) ==
  (M \ {<<path[2 * k + 1], path[2 * k]>> : k \in 1 .. (Len(path) \div 2 - 1)})
    \cup {<<path[2 * k - 1], path[2 * k]>> : k \in 1 .. (Len(path) \div 2)}
Augment == phase = "search" /\ \E p \in Paths : M' = Flip(p) /\ UNCHANGED <<adj, phase>>
Next == LeafMatch \/ Search \/ Augment
Spec == Init /\ [][Next]_vs /\ WF_vs(Next)

IsMatching(m) == /\ \A x \in m : x[2] \in adj[x[1]]
                 /\ Cardinality(MatchedE(m)) = Cardinality(m) /\ Cardinality(MatchedV(m)) = Cardinality(m)
Edges == {x \in Es \X Vs : x[2] \in adj[x[1]]}
Best == CHOOSE n \in 0 .. NE : /\ \E m \in SUBSET Edges : IsMatching(m) /\ Cardinality(m) = n
                               /\ \A m \in SUBSET Edges : IsMatching(m) => Cardinality(m) <= n
(* Leaves are forced: what was a perfect matching can still be completed.  *)
Completable == \E m \in SUBSET Edges : IsMatching(m) /\ Cardinality(m) = NE /\ M \subseteq m
Oracle == Cardinality(DOMAIN P!Maximum(adj, Es, <<>>)) = Best

MatchingInv == IsMatching(M)
LeafInv == phase = "leaves" => (Best = NE /\ NE = NV => Completable)
StopInv == (phase = "search" /\ Paths = {}) => Cardinality(M) = Best
OracleInv == M = {} => Oracle
Monotone == [][MatchedE(M) \subseteq MatchedE(M') /\ MatchedV(M) \subseteq MatchedV(M')]_vs
Terminates == <>(phase = "search" /\ Paths = {})
=============================================================================
