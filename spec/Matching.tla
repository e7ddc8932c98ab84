----------------------------- MODULE Matching -----------------------------
(* The matching problem of a system of array equations, at the level of    *)
(* scalar equations and scalar variables, and what its outcome has to be.  *)
EXTENDS AccessFunctions, Bipartite

VARIABLES vars,     \* variable id -> its points
          eqs,      \* equation id -> its points
          inc       \* set of <<equation id, point, variable id, point>>
mvars == <<vars, eqs, inc>>

Init == vars = <<>> /\ eqs = <<>> /\ inc = {}
AddVariable(id, S) ==
  /\ id \notin DOMAIN vars
  /\ vars' = (id :> S) @@ vars /\ UNCHANGED <<eqs, inc>>
(* An equation sees the variables which are there when it is added.        *)
AddEquation(id, S, acc) ==
  /\ id \notin DOMAIN eqs
  /\ eqs' = (id :> S) @@ eqs
  /\ inc' = inc \cup UNION {UNION {{<<id, p, acc[k].v, q>> : q \in MapPoint(acc[k].f, p) \cap vars[acc[k].v]} : p \in S}
                            : k \in {j \in DOMAIN acc : acc[j].v \in DOMAIN vars}}
  /\ UNCHANGED vars

ScalarEquations == UNION {{<<e, p>> : p \in eqs[e]} : e \in DOMAIN eqs}
ScalarVariables == UNION {{<<v, q>> : q \in vars[v]} : v \in DOMAIN vars}
SumSizes(f) == Cardinality(UNION {{<<k, p>> : p \in f[k]} : k \in DOMAIN f})

Solvable ==
  HasPerfect(ScalarEquations, ScalarVariables,
             [e \in ScalarEquations |-> {<<x[3], x[4]>> : x \in {y \in inc : y[1] = e[1] /\ y[2] = e[2]}}])

(* The reported groups <<equation, its points, variable, its points>>: no  *)
(* pair of names twice, every scalar equation and every scalar variable in *)
(* exactly one group, and the two sides of a group can be paired along the *)
(* accesses of that equation to that variable.                             *)
Splits(f, parts) ==      \* parts: sequence of <<name, set>>
  /\ \A k \in DOMAIN parts : parts[k][1] \in DOMAIN f /\ parts[k][2] \subseteq f[parts[k][1]] /\ parts[k][2] # {}
  /\ \A n \in DOMAIN f :
       LET K == {k \in DOMAIN parts : parts[k][1] = n}
       IN /\ UNION {parts[k][2] : k \in K} = f[n]
          /\ \A j, k \in K : j # k => parts[j][2] \cap parts[k][2] = {}
Assignment(sol) ==
  /\ \A j, k \in DOMAIN sol : j # k => <<sol[j].e, sol[j].v>> # <<sol[k].e, sol[k].v>>
  /\ Splits(eqs,  [k \in DOMAIN sol |-> <<sol[k].e, sol[k].ei>>])
  /\ Splits(vars, [k \in DOMAIN sol |-> <<sol[k].v, sol[k].vi>>])
  /\ \A k \in DOMAIN sol :
       HasPerfect(sol[k].ei, sol[k].vi,
                  [p \in sol[k].ei |-> {x[4] : x \in {y \in inc : y[1] = sol[k].e /\ y[2] = p /\ y[3] = sol[k].v}} \cap sol[k].vi])

Match(ok, sol) == UNCHANGED mvars /\ ok = Solvable /\ (ok => Assignment(sol))
=============================================================================
