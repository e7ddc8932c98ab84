--------------------------------- MODULE IR ---------------------------------
(* Meaning of the compiler's representation of a model, and of source text:  *)
(* expressions as trees {o, t, a, n, k, x}, statements, functions, equation  *)
(* functions and schedules.                                                  *)
EXTENDS Values

RangeSeq(lo, hi, st) ==
  IF st > 0 THEN [k \in 1 .. (IF hi < lo THEN 0 ELSE (hi - lo) \div st + 1) |-> lo + (k - 1) * st]
  ELSE IF st < 0 THEN [k \in 1 .. (IF hi > lo THEN 0 ELSE (lo - hi) \div (0 - st) + 1) |-> lo + (k - 1) * st]
  ELSE <<lo>>
RECURSIVE CatD(_)
CatD(as) == IF as = <<>> THEN <<>> ELSE Head(as).d \o CatD(Tail(as))
RECURSIVE IndexOf(_, _, _)
IndexOf(n, vars, k) == IF vars[k].n = n THEN k ELSE IndexOf(n, vars, k + 1)
RECURSIVE Filter(_, _)
Filter(vars, io) == IF vars = <<>> THEN <<>>
                    ELSE (IF Head(vars).io = io THEN <<Head(vars)>> ELSE <<>>) \o Filter(Tail(vars), io)

(* An environment: v variables, t temporaries, ind the values of the         *)
(* inductions, der the derivative of each state, fn the functions, time.     *)
RECURSIVE Eval(_, _), DerEval(_, _), Subs(_, _, _), CallFn(_, _, _, _), Exec(_, _, _), Loop(_, _, _, _), Each(_, _, _, _, _, _), Addr(_, _)
RECURSIVE Reduce(_, _, _, _, _)

\* The variable and subscripts that der(e), or a place in memory, stands for.
DerEval(e, env) ==
  IF e.o = "var" THEN env.v[env.der[e.n]]
  ELSE IF e.o = "at" THEN View(env.v[env.der[e.a[1].n]], Subs(Tail(e.a), env, 1))
  ELSE IF e.o \in {"tensor_extract", "tensor_view"}
       THEN View(DerEval(e.a[1], env), Subs(Tail(e.a), env, 0))
  ELSE Assert(FALSE, "derivative of an expression")

\* Subscripts (their list may be shorter than the rank); base 1 in the source.
Subs(es, env, base) ==
  [k \in DOMAIN es |->
     LET e == es[k] IN
     IF e.t = "g"
     THEN (IF e.o \in {"unbounded_range", "all"} THEN [g |-> TRUE, l |-> <<>>, all |-> TRUE]
           ELSE [g |-> TRUE, all |-> FALSE,
                 l |-> LET d == Eval(e, env).d IN [j \in DOMAIN d |-> d[j] - base]])
     ELSE [g |-> FALSE, all |-> FALSE, l |-> <<Val(Eval(e, env)) - base>>]]
Fix(S, s) == [j \in DOMAIN S |-> IF S[j].all THEN [g |-> TRUE, l |-> [k \in 1 .. s[j] |-> k - 1]]
                                ELSE [g |-> S[j].g, l |-> S[j].l]]
ViewOf(a, S) == View(a, Fix(S, a.s))

Eval(e, env) ==
  LET o == e.o
      A(k) == Eval(e.a[k], env)
      n == Len(e.a)
  IN
  CASE o = "const" -> Scalar(e.t, Num(e.t, e.x))
    [] o = "consts" -> T(e.t, e.sh, [k \in DOMAIN e.x |-> Num(e.t, e.x[k])])
    [] o = "grange" -> LET d == RangeSeq(e.x[1], e.x[2], e.x[3]) IN T("i", <<Len(d)>>, d)
    [] o = "range" -> LET d == RangeSeq(Val(A(1)), Val(A(2)), IF n > 2 THEN Val(A(3)) ELSE 1) IN T("i", <<Len(d)>>, d)
    [] o = "var" -> env.v[e.n]
    [] o = "tmp" -> env.t[e.k]
    [] o = "ref" -> env.v[e.n]
    [] o = "ind" -> Scalar("i", env.ind[e.k])
    [] o = "time" -> Scalar("r", env.time)
    [] o = "der" -> DerEval(e.a[1], env)
    [] o = "at" -> ViewOf(A(1), Subs(Tail(e.a), env, 1))
    [] o \in {"tensor_view", "tensor_extract", "subscription", "load"} ->
         ViewOf(A(1), Subs(Tail(e.a), env, 0))
    [] o \in {"array_to_tensor", "cast"} /\ e.t # "g" -> Map1("cast", e.t, A(1))
    [] o \in {"array_to_tensor", "array_cast", "copy"} -> A(1)
    [] o \in {"tensor_from_elements", "array_from_elements"} ->
         LET as == [k \in 1 .. n |-> A(k)] IN T(e.t, e.sh, LET d == CatD(as) IN [k \in DOMAIN d |-> Num(e.t, d[k])])
    [] o \in {"tensor_broadcast", "array_broadcast"} -> Fill(e.t, e.sh, Num(e.t, Val(A(1))))
    [] o = "tensor_concat" -> LET as == [k \in 1 .. n |-> A(k)] IN
         T(e.t, <<Len(CatD(as)) \div (IF Len(as[1].s) = 0 THEN 1 ELSE Prod(Tail(as[1].s)))>> \o Tail(as[1].s), CatD(as))
    [] o = "array" -> \* source array literal
         LET as == [k \in 1 .. n |-> A(k)] IN
         T(e.t, <<n>> \o as[1].s, LET d == CatD(as) IN [k \in DOMAIN d |-> Num(e.t, d[k])])
    [] o = "select" -> (IF Val(A(1)) # 0 THEN As(e.t, A(2)) ELSE As(e.t, A(3)))
    [] o \in {"sum", "product"} /\ n = 1 ->
         Scalar(e.t, FoldD(IF o = "sum" THEN "add" ELSE "mul", e.t, A(1).d, IF o = "sum" THEN 0 ELSE 1))
    [] o \in {"max", "min"} /\ n = 1 ->
         LET d == A(1).d IN Scalar(e.t, FoldD(o, e.t, Tail(d), Num(e.t, d[1])))
    [] o = "size" -> (IF n = 1 THEN LET s == A(1).s IN T("i", <<Len(s)>>, s)
                      ELSE Scalar("i", A(1).s[Val(A(2)) + 1]))
    [] o = "dim" -> Scalar("i", A(1).s[Val(A(2)) + 1])
    [] o = "sizeof" -> Scalar("i", A(1).s[Val(A(2))])   \* source: one-based
    [] o = "ndims" -> Scalar("i", Len(A(1).s))
    [] o = "zeros" -> Fill(e.t, [k \in 1 .. n |-> Val(A(k))], 0)
    [] o = "ones" -> Fill(e.t, [k \in 1 .. n |-> Val(A(k))], 1)
    [] o = "fill" -> Fill(e.t, [k \in 1 .. n - 1 |-> Val(A(k + 1))], Num(e.t, Val(A(1))))
    [] o = "identity" -> LET m == Val(A(1)) IN
         T(e.t, <<m, m>>, [k \in 1 .. m * m |-> Bool((k - 1) % (m + 1) = 0)])
    [] o = "diagonal" -> LET a == A(1)
                             m == Len(a.d) IN
         T(e.t, <<m, m>>, [k \in 1 .. m * m |-> IF (k - 1) % (m + 1) = 0 THEN Num(e.t, a.d[(k - 1) \div (m + 1) + 1]) ELSE 0])
    [] o = "linspace" -> LET x == Val(A(1))
                             y == Val(A(2))
                             m == Val(A(3)) IN
         T("r", <<m>>, [k \in 1 .. m |-> R(x + R((R(y - x) * Inv(m - 1))) * (k - 1))])
    [] o = "transpose" -> LET a == A(1) IN
         T(e.t, <<a.s[2], a.s[1]>>, [k \in DOMAIN a.d |-> a.d[((k - 1) % a.s[1]) * a.s[2] + (k - 1) \div a.s[1] + 1]])
    [] o = "symmetric" -> LET a == A(1)
                              m == a.s[1] IN
         T(e.t, a.s, [k \in DOMAIN a.d |->
            LET i == (k - 1) \div m
                j == (k - 1) % m IN IF i <= j THEN a.d[k] ELSE a.d[j * m + i + 1]])
    [] o = "mul" -> Product(e.t, A(1), A(2))
    [] o \in {"add_ew", "sub_ew", "mul_ew", "div_ew", "pow_ew"} ->
         Map2(CASE o = "add_ew" -> "add" [] o = "sub_ew" -> "sub" [] o = "mul_ew" -> "mul"
                [] o = "div_ew" -> "div" [] o = "pow_ew" -> "pow", e.t, A(1), A(2))
    [] o = "call" ->
         CallFn(env.fn[e.n], [k \in 1 .. n |-> A(k)], e, env)
    [] o = "reduction" ->
         LET d == Reduce(e.ks, e, 1, env, env)
         IN Scalar(e.t, IF e.n \in {"add", "sum"} THEN FoldD("add", e.t, d, 0)
                        ELSE IF e.n \in {"mul", "product"} THEN FoldD("mul", e.t, d, 1)
                        ELSE FoldD(e.n, e.t, Tail(d), d[1]))
    [] OTHER ->
         (IF e.t = "g" \/ (n = 2 /\ \E k \in 1 .. n : e.a[k].t = "g") THEN
            Map2(o, "i", A(1), A(2))
          ELSE IF n = 1 THEN Map1(o, e.t, A(1)) ELSE Map2(o, e.t, A(1), A(2)))

\* The values of a reduction's expression over the product of its iterables.
Reduce(ks, e, k, env, env0) ==
  IF k > Len(ks) THEN <<Val(Eval(e.e, env))>>
  ELSE LET d == Eval(e.a[k], env0).d
           RECURSIVE Go(_)
           Go(j) == IF j > Len(d) THEN <<>>
                    ELSE Reduce(ks, e, k + 1, [env EXCEPT !.t = (ks[k] :> Scalar("i", d[j])) @@ @], env0) \o Go(j + 1)
       IN Go(1)

(* Functions.  A call binds the inputs, gives every other variable zeros,    *)
(* runs the body, and yields the k-th output.                                *)
ZeroOf(v) == IF \E k \in DOMAIN v.sh : v.sh[k] < 0 THEN T(v.t, [k \in DOMAIN v.sh |-> IF v.sh[k] < 0 THEN 0 ELSE v.sh[k]], <<>>)
             ELSE Fill(v.t, v.sh, 0)
CallFn(f, args, e, env) ==
  LET ins == Filter(f.vars, "input")
      outs == Filter(f.vars, "output")
      named == IF "names" \in DOMAIN e THEN e.names ELSE <<>>
      nameOf(k) == IF named = <<>> THEN ins[k].n ELSE named[k]
      given == [v \in {nameOf(k) : k \in 1 .. Len(args)} |->
                 args[CHOOSE k \in 1 .. Len(args) : nameOf(k) = v]]
      names == {f.vars[k].n : k \in DOMAIN f.vars}
      base == [v \in names |->
                 LET d == f.vars[IndexOf(v, f.vars, 1)] IN
                 IF v \in DOMAIN given THEN As(d.t, given[v]) ELSE ZeroOf(d)]
      env1 == [env EXCEPT !.v = base, !.t = <<>>, !.ind = <<>>]
      dflt == {k \in DOMAIN f.defs : f.defs[k].n \notin DOMAIN given}
      \* Default values may depend on each other, without cycles: after as many
      \* rounds as there are, each has been computed from the right ones.
      Round(en) == [en EXCEPT !.v = [v \in names |->
                      IF \E k \in dflt : f.defs[k].n = v
                      THEN As(base[v].t, Eval(f.defs[CHOOSE k \in dflt : f.defs[k].n = v].e, en))
                      ELSE base[v]]]
      RECURSIVE Rounds(_, _)
      Rounds(k, en) == IF k = 0 THEN en ELSE Rounds(k - 1, TLCEval(Round(en)))
      start == Rounds(Len(f.defs), env1)
  IN Exec(f.b, 1, [start EXCEPT !.out = 0]).v[outs[e.k + 1].n]

(* Statements, in an environment whose out is 0 (running), 1 (leaving the    *)
(* innermost loop) or 2 (leaving the function).                              *)
SetPlace(p, e, env) == \* p = [n or k, S]
  IF p.S = <<>> /\ p.whole
  THEN (IF p.v THEN [env EXCEPT !.v[p.n] = As(@.t, e)] ELSE [env EXCEPT !.t[p.n] = As(@.t, e)])
  ELSE IF p.v THEN [env EXCEPT !.v[p.n] = Put(@, Fix(p.S, @.s), e)]
  ELSE [env EXCEPT !.t[p.n] = Put(@, Fix(p.S, @.s), e)]
Addr(m, env) ==
  CASE m.o \in {"ref", "var"} -> [v |-> TRUE, n |-> m.n, S |-> <<>>]
    [] m.o = "tmp" -> [v |-> FALSE, n |-> m.k, S |-> <<>>]
    [] m.o \in {"subscription"} -> [Addr(m.a[1], env) EXCEPT !.S = @ \o Subs(Tail(m.a), env, 0)]
    [] m.o = "array_cast" -> Addr(m.a[1], env)
    [] OTHER -> Assert(FALSE, <<"no place", m.o>>)
Whole(p, w) == [v |-> p.v, n |-> p.n, S |-> p.S, whole |-> w]

Exec(b, k, env) ==
  IF k > Len(b) \/ env.out # 0 THEN env
  ELSE LET s == b[k]
           V(e) == Eval(e, env)
           Next(env2) == Exec(b, k + 1, env2)
       IN
  CASE s.s = "let" -> Next([env EXCEPT !.t = (s.k :> V(s.e)) @@ @])
    [] s.s = "lets" -> Next([env EXCEPT !.t = [x \in {s.ks[j] : j \in DOMAIN s.ks} |->
                                 V(s.es[CHOOSE j \in DOMAIN s.ks : s.ks[j] = x])] @@ @])
    [] s.s = "alloc" -> Next([env EXCEPT !.t = (s.k :> Fill(s.t, s.sh, 0)) @@ @])
    [] s.s = "set" -> \* base 0 subscripts
         Next(SetPlace([v |-> TRUE, n |-> s.n, S |-> Subs(s.ix, env, 0), whole |-> TRUE], V(s.e), env))
    [] s.s = "assign" -> \* source assignment, base 1
         Next(SetPlace([v |-> TRUE, n |-> s.n, S |-> Subs(s.ix, env, 1), whole |-> TRUE], V(s.e), env))
    [] s.s = "assigns" -> \* (a, b) := f(...): each of the results in order
         LET vals == [j \in DOMAIN s.es |-> V(s.es[j])]
             RECURSIVE Go(_, _)
             Go(j, en) == IF j > Len(s.ns) THEN en
                          ELSE Go(j + 1, SetPlace([v |-> TRUE, n |-> s.ns[j].n, S |-> Subs(s.ns[j].ix, env, 1), whole |-> TRUE], vals[j], en))
         IN Next(Go(1, env))
    [] s.s = "store" ->
         LET p == Addr(s.m, env)
         IN Next(SetPlace(Whole([p EXCEPT !.S = @ \o Subs(s.ix, env, 0)], TRUE), V(s.e), env))
    [] s.s \in {"copy", "fill"} ->
         LET p == Addr(s.m, env)
             a == Eval(s.m, env)
         IN Next(SetPlace(Whole(p, TRUE), IF s.s = "fill" THEN Fill(a.t, a.s, Val(V(s.e))) ELSE V(s.e), env))
    [] s.s = "if" -> Next(Exec(IF Val(V(s.e)) # 0 THEN s.b ELSE s.c, 1, env))
    [] s.s = "loop" -> LET r == Loop(s, env, 0, 0) IN Next(IF r.out = 1 THEN [r EXCEPT !.out = 0] ELSE r)
    [] s.s = "for" ->
         LET d == RangeSeq(Val(V(s.lb)), Val(V(s.ub)) - 1, Val(V(s.st)))
             r == Each(d, 1, s.k, "t", s.b, env)
         IN Next(IF r.out = 1 THEN [r EXCEPT !.out = 0] ELSE r)
    [] s.s = "foreach" -> \* source for statement over the values of an expression
         LET r == Each(V(s.e).d, 1, s.n, "v", s.b, env)
         IN Next(IF r.out = 1 THEN [r EXCEPT !.out = 0] ELSE r)
    [] s.s = "break" -> [env EXCEPT !.out = 1]
    [] s.s = "return" -> [env EXCEPT !.out = 2]
    [] OTHER -> Assert(FALSE, <<"no statement", s.s>>)

Loop(s, env, n, x) ==
  LET e1 == Exec(s.pre, 1, env)
  IN IF n > 500 THEN Assert(FALSE, "endless loop")
     ELSE IF e1.out # 0 \/ Val(Eval(s.e, e1)) = 0 THEN e1
     ELSE LET e2 == Exec(s.b, 1, e1)
          IN IF e2.out # 0 THEN e2 ELSE Loop(s, Exec(s.c, 1, e2), n + 1, x)
Each(d, j, k, what, b, env) ==
  IF j > Len(d) \/ env.out # 0 THEN env
  ELSE Each(d, j + 1, k, what, b,
            Exec(b, 1, IF what = "t" THEN [env EXCEPT !.t = (k :> Scalar("i", d[j])) @@ @]
                       ELSE [env EXCEPT !.v = (k :> Scalar("i", d[j])) @@ @]))

(* Equations.  An equation holds at an environment when both sides have the  *)
(* same values at each of its points.                                        *)
EquationHolds(q, env) ==
  \A p \in DOMAIN q.ix :
    LET en == [env EXCEPT !.ind = q.ix[p]]
    IN \A k \in DOMAIN q.l : Same(Eval(q.l[k], en), Eval(q.r[k], en))

(* Schedules.  rev chooses the other admissible order: calls marked as       *)
(* parallel run one point at a time from last to first, and the blocks of a  *)
(* parallel group run from last to first.                                    *)
RECURSIVE Points(_)
Points(bx) == \* boxes <<lb1, ub1, ...>> as the list of their points' unit boxes
  IF Len(bx) = 0 THEN <<<<>>>>
  ELSE LET rest == Points(SubSeq(bx, 3, Len(bx)))
       IN [k \in 1 .. (bx[2] - bx[1]) * Len(rest) |->
             LET i == bx[1] + (k - 1) \div Len(rest) IN <<i, i + 1>> \o rest[((k - 1) % Len(rest)) + 1]]
RECURSIVE CatSeq(_)
CatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatSeq(Tail(ss))
Reverse(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]

RECURSIVE RunBoxes(_, _, _, _)
RunBoxes(f, bxs, k, env) ==
  IF k > Len(bxs) THEN env
  ELSE LET t == [x \in {f.ks[j] : j \in DOMAIN f.ks} |->
                   Scalar("i", bxs[k][CHOOSE j \in DOMAIN f.ks : f.ks[j] = x])]
       IN RunBoxes(f, bxs, k + 1, [Exec(f.b, 1, [env EXCEPT !.t = t, !.out = 0]) EXCEPT !.t = <<>>, !.out = 0])
RunCall(c, prog, env, rev) ==
  LET f == prog.eqf[c.f]
      bx == IF Len(c.bx) = 0 THEN <<<<>>>>
            ELSE IF rev /\ c.par THEN Reverse(CatSeq([k \in DOMAIN c.bx |-> Points(c.bx[k])]))
            ELSE c.bx
  IN RunBoxes(f, bx, 1, env)
RECURSIVE RunCalls(_, _, _, _, _)
RunCalls(cs, k, prog, env, rev) ==
  IF k > Len(cs) THEN env ELSE RunCalls(cs, k + 1, prog, RunCall(cs[k], prog, env, rev), rev)
RECURSIVE RunBlocks(_, _, _, _, _)
RunBlocks(bs, k, prog, env, rev) ==
  IF k > Len(bs) THEN env
  ELSE RunBlocks(bs, k + 1, prog, RunCalls(bs[k].calls, 1, prog, env, rev), rev)
RECURSIVE RunGroups(_, _, _, _, _)
RunGroups(gs, k, prog, env, rev) ==
  IF k > Len(gs) THEN env
  ELSE RunGroups(gs, k + 1, prog,
                 RunBlocks(IF rev /\ gs[k].par THEN Reverse(gs[k].bs) ELSE gs[k].bs, 1, prog, env, rev), rev)

\* A runtime function: stores and schedules.
RECURSIVE RunTop(_, _, _, _, _)
RunTop(b, k, prog, env, rev) ==
  IF k > Len(b) THEN env
  ELSE LET s == b[k]
           env2 == IF s.s = "run" THEN [RunGroups(prog.sched[s.n], 1, prog, env, rev) EXCEPT !.t = env.t]
                   ELSE Exec(<<s>>, 1, env)
       IN RunTop(b, k + 1, prog, env2, rev)
RunEntry(name, args, prog, env, rev) ==
  LET f == prog.rtf[name]
      t == [x \in {f.ks[j] : j \in DOMAIN f.ks} |-> args[CHOOSE j \in DOMAIN f.ks : f.ks[j] = x]]
  IN [RunTop(f.b, 1, prog, [env EXCEPT !.t = t], rev) EXCEPT !.t = <<>>]
=============================================================================
