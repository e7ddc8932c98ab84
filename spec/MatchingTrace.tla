--------------------------- MODULE MatchingTrace ---------------------------
EXTENDS Matching, TraceKit

Sol == [k \in DOMAIN E.sol |-> [e |-> E.sol[k].e, v |-> E.sol[k].v,
                                ei |-> RangeOf(E.sol[k].ei), vi |-> RangeOf(E.sol[k].vi)]]
Once == \A k \in DOMAIN E.sol : Len(E.sol[k].ei) = Cardinality(RangeOf(E.sol[k].ei))
                             /\ Len(E.sol[k].vi) = Cardinality(RangeOf(E.sol[k].vi))
TraceNext ==
  \/ IsEvent("reset") /\ vars' = <<>> /\ eqs' = <<>> /\ inc' = {}
  \/ IsEvent("var") /\ AddVariable(E.id, Cover(E.s))
  \/ IsEvent("eq") /\ AddEquation(E.id, Cover(E.s), E.acc)
  \/ /\ IsEvent("count") /\ UNCHANGED mvars
     /\ E.ne = SumSizes(eqs) /\ E.nv = SumSizes(vars)
     /\ RangeOf(E.vs) = DOMAIN vars /\ Len(E.vs) = Cardinality(DOMAIN vars)
     /\ RangeOf(E.es) = DOMAIN eqs /\ Len(E.es) = Cardinality(DOMAIN eqs)
  \/ /\ IsEvent("match") /\ Match(E.ok, Sol) /\ (E.ok => Once)

TraceInit == Init /\ l = 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, eqs, inc, l>>
=============================================================================
