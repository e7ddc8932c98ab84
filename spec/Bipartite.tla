----------------------------- MODULE Bipartite -----------------------------
(* Maximum matchings of a bipartite graph, by augmenting paths.            *)
(* adj: vertex -> its neighbours; m: matched neighbour -> vertex.          *)
EXTENDS FiniteSets, Integers, TLC

RECURSIVE Try(_, _, _, _)
Try(adj, m, e, seen) ==
  LET C == adj[e] \ seen
  IN IF C = {} THEN [ok |-> FALSE, m |-> m, seen |-> seen]
     ELSE LET free == {v \in C : v \notin DOMAIN m}
          IN IF free # {} THEN [ok |-> TRUE, m |-> ((CHOOSE v \in free : TRUE) :> e) @@ m, seen |-> seen]
             ELSE LET v == CHOOSE x \in C : TRUE
                      r == Try(adj, m, m[v], seen \cup {v})
                  IN IF r.ok THEN [ok |-> TRUE, m |-> [r.m EXCEPT ![v] = e], seen |-> r.seen]
                     ELSE Try(adj, m, e, r.seen)
RECURSIVE Maximum(_, _, _)
Maximum(adj, Es, m) ==
  IF Es = {} THEN m
  ELSE LET e == CHOOSE x \in Es : TRUE
       IN Maximum(adj, Es \ {e}, Try(adj, m, e, {}).m)
Matched(Es, adj) == Cardinality(DOMAIN Maximum(adj, Es, <<>>))
HasPerfect(Es, Vs, adj) == Cardinality(Es) = Cardinality(Vs) /\ Matched(Es, adj) = Cardinality(Es)
=============================================================================
