----------------------------- MODULE WellPosed -----------------------------
(* What makes a source model one that can be compiled: its names resolve,    *)
(* its subscripts fit, and its equations can be paired with its unknowns     *)
(* (and, together with the initial equations, with all the values).          *)
EXTENDS Simulation, Bipartite

(* Walking expressions and statements.                                       *)
Kids(e) == [k \in 1 .. Len(e.a) |-> e.a[k]] \o (IF "e" \in DOMAIN e THEN <<e.e>> ELSE <<>>)
RECURSIVE Nodes(_)
Nodes(e) == {e} \cup UNION {Nodes(Kids(e)[k]) : k \in DOMAIN Kids(e)}
RECURSIVE Statements(_)
Statements(b) ==
  UNION {{b[k]} \cup (IF "b" \in DOMAIN b[k] THEN Statements(b[k].b) ELSE {})
                \cup (IF "c" \in DOMAIN b[k] THEN Statements(b[k].c) ELSE {})
                \cup (IF "pre" \in DOMAIN b[k] THEN Statements(b[k].pre) ELSE {}) : k \in DOMAIN b}
Exprs(st) ==
  (IF "e" \in DOMAIN st THEN Nodes(st.e) ELSE {})
  \cup (IF "es" \in DOMAIN st THEN UNION {Nodes(st.es[k]) : k \in DOMAIN st.es} ELSE {})
  \cup (IF "ix" \in DOMAIN st THEN UNION {Nodes(st.ix[k]) : k \in DOMAIN st.ix} ELSE {})
Sides(q) == UNION {Nodes(q.l[k]) \cup Nodes(q.r[k]) : k \in DOMAIN q.l}
ModelNodes(s) == UNION {Sides(s.eqs[k]) : k \in DOMAIN s.eqs} \cup UNION {Sides(s.init[k]) : k \in DOMAIN s.init}
                 \cup UNION {UNION {Exprs(x) : x \in Statements(s.algs[k].b)} : k \in DOMAIN s.algs}
BodyNodes(f) == UNION {Exprs(x) : x \in Statements(f.b)} \cup UNION {Nodes(f.defs[k].e) : k \in DOMAIN f.defs}

Names(vs) == {vs[k].n : k \in DOMAIN vs}
Distinct(vs) == \A j, k \in DOMAIN vs : vs[j].n = vs[k].n => j = k
RankOf(n, vs) == Len(vs[IndexOf(n, vs, 1)].sh)
Inputs(f) == Filter(f.vars, "input")
CallFits(c, fns) ==
  \E k \in DOMAIN fns :
    LET f == fns[k]
        ins == Inputs(f)
        need == {ins[j].n : j \in DOMAIN ins} \ {f.defs[j].n : j \in DOMAIN f.defs}
    IN /\ f.n = c.n /\ Len(c.a) <= Len(ins)
       /\ IF "names" \in DOMAIN c
          THEN need \subseteq {c.names[j] : j \in DOMAIN c.names} /\ {c.names[j] : j \in DOMAIN c.names} \subseteq Names(ins)
          ELSE need \subseteq {ins[j].n : j \in 1 .. Len(c.a)}
Mathematical == {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp", "log", "log10", "sqrt", "abs", "sign",
                 "ceil", "floor", "integer"}
(* nodes that mean something where these variables are visible               *)
Means(e, vs, bound, fns) ==
  CASE e.o = "var" -> e.n \in Names(vs) \cup bound
    [] e.o = "at" /\ e.a[1].o = "var" -> e.a[1].n \in Names(vs) /\ Len(e.a) - 1 <= RankOf(e.a[1].n, vs)
    [] e.o = "at" /\ e.a[1].o = "at" -> FALSE
    [] e.o = "call" -> CallFits(e, fns)
    [] e.o \in Mathematical \cup {"der"} -> Len(e.a) = 1
    [] OTHER -> TRUE
\* Assignments: <<name, number of subscripts>>
Targets(st) == (IF st.s = "assign" THEN {<<st.n, Len(st.ix)>>} ELSE {})
               \cup (IF st.s = "assigns" THEN {<<st.ns[k].n, Len(st.ns[k].ix)>> : k \in DOMAIN st.ns} ELSE {})
Resolved(s) ==
  /\ Distinct(s.vars)
  /\ \A e \in ModelNodes(s) : Means(e, s.vars, {}, s.fn)
  /\ Distinct(s.fn)
  /\ \A k \in DOMAIN s.fn :
       LET f == s.fn[k]
           bound == {st.n : st \in {x \in Statements(f.b) : x.s = "foreach"}}
       IN /\ Distinct(f.vars)
          /\ \A e \in BodyNodes(f) : Means(e, f.vars, bound, s.fn)
          /\ \A st \in Statements(f.b) : \A t \in Targets(st) :
               t[1] \in Names(f.vars) \ Names(Inputs(f)) /\ t[2] <= RankOf(t[1], f.vars)

(* The scalar values ("cells") that each element of an expression looks at.  *)
\* An environment in which subscripts can be computed.
Plain(s) == [v |-> [n \in Names(s.vars) |-> LET d == s.vars[IndexOf(n, s.vars, 1)] IN Fill(d.t, d.sh, 1)],
             t |-> <<>>, ind |-> <<>>, der |-> [n \in Names(s.vars) |-> n], fn |-> ByName(s.fn), time |-> 1, out |-> 0]
AllCells(n, sh, d) == T("c", sh, [k \in 1 .. Prod(sh) |-> {<<n, d, k>>}])
Merge(c) == UNION {c.d[k] : k \in DOMAIN c.d}
ElementWise == {"add", "sub", "neg", "add_ew", "sub_ew", "mul_ew", "div_ew", "pow_ew", "not", "and", "or", "select",
                "eq", "neq", "lt", "lte", "gt", "gte", "div"}
Shapes(c) == LET ss == SelectSeq([k \in DOMAIN c |-> c[k].s], LAMBDA x : x # <<>>) IN IF ss = <<>> THEN <<>> ELSE ss[1]
Joined(c, s) == T("c", s, [k \in 1 .. Prod(s) |-> UNION {IF c[j].s = <<>> THEN c[j].d[1] ELSE c[j].d[k] : j \in DOMAIN c}])
RECURSIVE Cells(_, _)
Cells(e, env) ==
  LET n == Len(e.a)
      c == [k \in 1 .. n |-> Cells(e.a[k], env)]
      all(s, x) == T("c", s, [k \in 1 .. Prod(s) |-> x])
      tensors == SelectSeq(c, LAMBDA x : x.s # <<>>)
  IN CASE e.o = "var" -> AllCells(e.n, env.v[e.n].s, FALSE)
       [] e.o = "der" -> LET x == Cells(e.a[1], env) IN T("c", x.s, [k \in DOMAIN x.d |-> {<<y[1], TRUE, y[3]>> : y \in x.d[k]}])
       [] e.o = "at" -> View(c[1], Fix(Subs(Tail(e.a), env, 1), c[1].s))
       [] e.o = "array" -> T("c", <<n>> \o c[1].s, CatD(c))
       [] e.o \in ElementWise \/ (e.o = "mul" /\ Len(tensors) <= 1) -> Joined(c, Shapes(c))
       [] e.o = "call" /\ "sh" \in DOMAIN e -> all(e.sh, UNION {Merge(c[j]) : j \in 1 .. n})
       [] e.o = "reduction" -> all(<<>>, UNION {Merge(AllCells(x.n, env.v[x.n].s, FALSE)) : x \in {y \in Nodes(e) : y.o = "var"}})
       [] n = 1 /\ e.o \in Mathematical -> Joined(c, c[1].s)
       [] OTHER -> all(Eval(e, env).s, UNION {Merge(c[j]) : j \in 1 .. n})
\* Operands of the same shape, subscripts inside of the arrays.
RECURSIVE Fits(_, _)
Fits(e, env) ==
  /\ \A k \in 1 .. Len(e.a) : Fits(e.a[k], env)
  /\ CASE e.o = "at" ->
            LET s == Cells(e.a[1], env).s
                S == Fix(Subs(Tail(e.a), env, 1), s)
            IN \A j \in DOMAIN S : \A k \in DOMAIN S[j].l : S[j].l[k] \in 0 .. s[j] - 1
       [] e.o \in ElementWise ->
            LET c == [k \in 1 .. Len(e.a) |-> Cells(e.a[k], env).s]
            IN \A j, k \in DOMAIN c : c[j] = <<>> \/ c[k] = <<>> \/ c[j] = c[k]
       [] e.o = "call" ->
            LET ins == Inputs(env.fn[e.n])
                Of(k) == IF "names" \in DOMAIN e THEN ins[IndexOf(e.names[k], ins, 1)].sh ELSE ins[k].sh
                c == [k \in 1 .. Len(e.a) |-> Cells(e.a[k], env).s]
                More(k) == Len(c[k]) - Len(Of(k))
            IN \A k \in DOMAIN c : /\ More(k) = More(1) /\ More(k) >= 0
                                   /\ \A j \in DOMAIN Of(k) : Of(k)[j] < 0 \/ Of(k)[j] = c[k][More(k) + j]
                                   /\ \A j \in 1 .. More(k) : c[k][j] = c[1][j]
       [] e.o = "array" -> LET c == [k \in 1 .. Len(e.a) |-> Cells(e.a[k], env).s] IN \A j, k \in DOMAIN c : c[j] = c[k]
       [] OTHER -> TRUE
EquationFits(q, env) ==
  \A p \in DOMAIN q.ix : \A k \in DOMAIN q.l :
    LET en == [env EXCEPT !.ind = q.ix[p]]
    IN /\ Fits(q.l[k], en) /\ Fits(q.r[k], en)
       /\ LET a == Cells(q.l[k], en).s
              b == Cells(q.r[k], en).s
          IN a = b
Fit(s) == \A k \in DOMAIN s.eqs : EquationFits(s.eqs[k], Plain(s))
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
\* The scalar equations, each as the set of the cells it mentions.
Scalars(q, env) ==
  Cat([p \in DOMAIN q.ix |->
    Cat([k \in DOMAIN q.l |->
      LET en == [env EXCEPT !.ind = q.ix[p]]
          a == Cells(q.l[k], en)
          b == Cells(q.r[k], en)
      IN [j \in 1 .. Prod(a.s) |-> a.d[j] \cup b.d[IF b.s = <<>> THEN 1 ELSE j]]])])
System(qs, env) == Cat([k \in DOMAIN qs |-> Scalars(qs[k], env)])
Derivatives(sys) == UNION {{y \in sys[k] : y[2]} : k \in DOMAIN sys}
CellsOfVars(s) == UNION {UNION {AllCells(s.vars[k].n, s.vars[k].sh, FALSE).d[j] : j \in 1 .. Prod(s.vars[k].sh)} : k \in DOMAIN s.vars}

(* At every instant, the differentiated variables are known and their        *)
(* derivatives are not.                                                      *)
Solvable(s) ==
  LET env == Plain(s)
      sys == TLCEval(System(s.eqs, env))
      D == Derivatives(sys)
      known == {<<d[1], FALSE, d[3]>> : d \in D} \cup {c \in CellsOfVars(s) : \E k \in DOMAIN s.params : s.params[k] = c[1]}
      U == (CellsOfVars(s) \ known) \cup D
  IN s.algs = <<>> => HasPerfect(DOMAIN sys, U, [k \in DOMAIN sys |-> sys[k] \cap U])
(* At the start nothing is known: no more equations than values they could   *)
(* determine.                                                                *)
Consistent(s) ==
  LET env == Plain(s)
      sys == TLCEval(System(s.eqs \o s.init, env))
  IN Matched(DOMAIN sys, sys) = Len(sys)

WellPosed(s) == Resolved(s) /\ (s.plain => Fit(s) /\ Solvable(s) /\ Consistent(s))
=============================================================================
