----------------------------- MODULE MCIMTrace -----------------------------
EXTENDS MCIM, TraceKit

Entries(s) == {<<s[k][1], s[k][2]>> : k \in DOMAIN s}
Shown(M) ==
  /\ Entries(E.ent) = M.rel /\ Len(E.ent) = Cardinality(M.rel)
  /\ RangeOf(E.es) = M.es /\ RangeOf(E.vs) = M.vs
  /\ E.cells = Cardinality(M.es) * Cardinality(M.vs)
  /\ E.empty => M.rel = {}
  /\ RangeOf(E.rows) = Columns(M.rel)      \* flattenRows: the variables used
  /\ RangeOf(E.cols) = Rows(M.rel)
Upd(op, A) == IsEvent(op) /\ A /\ Shown(m'[E.r])

Sols == [k \in DOMAIN E.sols |-> Entries(E.sols[k])]

TraceNext ==
  \/ IsEvent("reset") /\ m' = [r \in Regs |-> Empty]
  \/ Upd("new", New(E.r, Cover(E.eqs), Cover(E.vars)))
  \/ Upd("copy", Copy(E.r, E.a))
  \/ Upd("move", Copy(E.r, E.a))
  \/ Upd("apply", Apply(E.r, Cover(E.s), E.f))
  \/ Upd("applyAll", ApplyAll(E.r, E.f))
  \/ Upd("set", SetEntry(E.r, E.e, E.v))
  \/ Upd("unset", UnsetEntry(E.r, E.e, E.v))
  \/ Upd("addM", AddM(E.r, E.a))
  \/ Upd("subM", SubM(E.r, E.a))
  \/ Upd("plus", Plus(E.r, E.a, E.b))
  \/ Upd("minus", Minus(E.r, E.a, E.b))
  \/ Upd("clear", Clear(E.r))
  \/ Upd("filterRows", FilterRows(E.r, E.a, Cover(E.s)))
  \/ Upd("filterColumns", FilterColumns(E.r, E.a, Cover(E.s)))
  \/ Upd("withSpace", WithSpace(E.r, E.a, Cover(E.eqs), Cover(E.vars)))
  \/ Upd("setEq", SetEq(E.r, Cover(E.eqs)))
  \/ Upd("setVar", SetVar(E.r, Cover(E.vars)))
  \/ Upd("show", Observe)
  \/ /\ IsEvent("eq") /\ Observe
     /\ E.eq = (m[E.a] = m[E.b]) /\ E.ne = ~E.eq
  \/ /\ IsEvent("split") /\ Observe
     /\ LocalSolutions(Sols, m[E.a].rel)
     /\ E.spaces
  \/ /\ IsEvent("solveM") /\ Observe
     /\ LocalSolutions(Sols, m[E.a].rel) /\ E.size = Len(E.sols)
     /\ E.spaces /\ E.again
  \/ /\ IsEvent("solve") /\ Observe
     /\ LET V == Cover(E.vars)
            S == Cover(E.eqs)
        IN LocalSolutions(Sols, UNION {Incidence(S, E.fs[k], V) : k \in DOMAIN E.fs})
     /\ E.size = Len(E.sols) /\ E.spaces /\ E.again

TraceInit == Init /\ l = 1
TraceSpec == TraceInit /\ [][TraceNext]_<<m, l>>
=============================================================================
