------------------------- MODULE DependenciesTrace -------------------------
EXTENDS Dependencies, TraceKit

Lists(x) == [c \in DOMAIN x |-> [d \in DOMAIN x[c] |-> [e |-> x[c][d].e, p |-> RangeOf(x[c][d].p)]]]
Sched(x) == [c \in DOMAIN x |-> [d \in DOMAIN x[c] |-> [e |-> x[c][d].e, p |-> RangeOf(x[c][d].p), d |-> x[c][d].d]]]
Once(x) == \A c \in DOMAIN x : \A d \in DOMAIN x[c] : Len(x[c][d].p) = Cardinality(RangeOf(x[c][d].p))

TraceNext ==
  \/ /\ IsEvent("sys")
     /\ vars' = RangeOfSeq(E.vars)
     /\ eqs' = [id \in {E.eqs[k].id : k \in DOMAIN E.eqs} |->
                 LET k == CHOOSE j \in DOMAIN E.eqs : E.eqs[j].id = id
                 IN [s |-> Cover(E.eqs[k].s), acc |-> E.eqs[k].acc, own |-> E.eqs[k].own + 1]]
  \/ /\ IsEvent("graph") /\ UNCHANGED dvars
     /\ LET G == ArrayEdges
        IN /\ GraphIs(E.nodes, E.edges, E.sccs, G, DOMAIN eqs)
           /\ OrderIs(E.post, G, DOMAIN eqs)
           /\ OrderIs([k \in DOMAIN E.rev |-> E.rev[Len(E.rev) + 1 - k]], G, DOMAIN eqs)
  \/ /\ IsEvent("varsgraph") /\ UNCHANGED dvars
     /\ GraphIs(E.nodes, E.edges, E.sccs, VariableEdges, vars)
  \/ /\ IsEvent("cycles") /\ UNCHANGED dvars
     /\ Once(E.sccs) /\ AreComponents(Lists(E.sccs))
  \/ /\ IsEvent("sched") /\ UNCHANGED dvars
     /\ Once(E.sched) /\ ScheduleIs(Lists(E.given), Sched(E.sched))
  \/ /\ IsEvent("scalar") /\ UNCHANGED dvars
     /\ ScalarOrderIs([k \in DOMAIN E.order |-> <<E.order[k].e, E.order[k].p>>])

TraceInit == vars = {} /\ eqs = <<>> /\ l = 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, eqs, l>>
=============================================================================
