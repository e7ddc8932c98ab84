------------------------------- MODULE MCIM -------------------------------
(* The compressed incidence matrix: a relation between the points of an    *)
(* equation space and those of a variable space.  Registers hold matrices; *)
(* one action per public operation.                                        *)
EXTENDS AccessFunctions

CONSTANT Regs
VARIABLE m        \* m[r] = [es, vs, rel]
mvars == <<m>>

Empty == [es |-> {}, vs |-> {}, rel |-> {}]
Init == m = [r \in Regs |-> Empty]
Put(r, v) == m' = [m EXCEPT ![r] = v]
Rel(r, R) == m' = [m EXCEPT ![r].rel = R]

Incidence(S, f, V) == UNION {{<<e, v>> : v \in MapPoint(f, e) \cap V} : e \in S}
Within(R, ES, VS)  == {x \in R : x[1] \in ES /\ x[2] \in VS}
Rows(R)    == {x[1] : x \in R}
Columns(R) == {x[2] : x \in R}

New(r, ES, VS)  == Put(r, [es |-> ES, vs |-> VS, rel |-> {}])
Copy(r, a)      == Put(r, m[a])
Apply(r, S, f)  == Rel(r, m[r].rel \cup Incidence(S, f, m[r].vs))
ApplyAll(r, f)  == Apply(r, m[r].es, f)
SetEntry(r, e, v)   == Rel(r, m[r].rel \cup {<<e, v>>})
UnsetEntry(r, e, v) == Rel(r, m[r].rel \ {<<e, v>>})
AddM(r, a)      == Rel(r, m[r].rel \cup m[a].rel)
SubM(r, a)      == Rel(r, m[r].rel \ m[a].rel)
Plus(r, a, b)   == Put(r, [m[a] EXCEPT !.rel = m[a].rel \cup m[b].rel])
Minus(r, a, b)  == Put(r, [m[a] EXCEPT !.rel = m[a].rel \ m[b].rel])
Clear(r)        == Rel(r, {})
FilterRows(r, a, S)    == Put(r, [m[a] EXCEPT !.rel = {x \in m[a].rel : x[1] \in S}])
FilterColumns(r, a, S) == Put(r, [m[a] EXCEPT !.rel = {x \in m[a].rel : x[2] \in S}])
WithSpace(r, a, ES, VS) == Put(r, [es |-> ES, vs |-> VS, rel |-> Within(m[a].rel, ES, VS)])
SetEq(r, ES)    == Put(r, [m[r] EXCEPT !.es = ES, !.rel = Within(m[r].rel, ES, m[r].vs)])
SetVar(r, VS)   == Put(r, [m[r] EXCEPT !.vs = VS, !.rel = Within(m[r].rel, m[r].es, VS)])
Observe         == UNCHANGED m

(* A set of entries that matches equations and variables one to one.       *)
IsMatching(R) == Cardinality(Rows(R)) = Cardinality(R) /\ Cardinality(Columns(R)) = Cardinality(R)
(* A list of local solutions of the incidence R: each of them a matching,  *)
(* together nothing is discarded and nothing is made up.                   *)
LocalSolutions(sols, R) ==
  /\ \A k \in DOMAIN sols : IsMatching(sols[k])
  /\ UNION {sols[k] : k \in DOMAIN sols} = R
=============================================================================
