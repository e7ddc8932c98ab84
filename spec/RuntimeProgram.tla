--------------------------- MODULE RuntimeProgram ---------------------------
(* The program that the compiler generates, as the runtime library drives    *)
(* it: memory, procedures, a pool of schedulers, and tables that tell which  *)
(* variables there are, how to read them, which of them to print and where   *)
(* their derivatives are.  Only what the getters report is compared with the *)
(* source model.                                                             *)
EXTENDS Simulation
VARIABLES mem,    \* the global variables
          pool    \* the schedulers that exist, each with its equations

(* Procedures.  env.pool holds the schedulers, env.res the last result and   *)
(* env.bad whether the program made a step that has no meaning.              *)
RECURSIVE Proc(_, _, _, _), Body(_, _, _, _), RunPoints(_, _, _, _, _), RunEntries(_, _, _, _)
Proc(n, args, env, rev) ==
  IF env.bad \/ n \notin DOMAIN prog.proc THEN [env EXCEPT !.bad = TRUE]
  ELSE LET p == prog.proc[n]
           t == [x \in {p.ks[j] : j \in DOMAIN p.ks} |-> args[CHOOSE j \in DOMAIN p.ks : p.ks[j] = x]]
           r == Body(p.b, 1, [env EXCEPT !.t = t, !.out = 0], rev)
       IN IF Len(args) # Len(p.ks) THEN [env EXCEPT !.bad = TRUE]
          ELSE [r EXCEPT !.t = env.t, !.out = 0]
RunPoints(f, bxs, k, env, rev) ==
  IF k > Len(bxs) THEN env
  ELSE RunPoints(f, bxs, k + 1, Proc(f, [j \in DOMAIN bxs[k] |-> Scalar("i", bxs[k][j])], env, rev), rev)
\* The equations of a list, one after the other; the points of those whose
\* points are independent may come in any order.
RunEntries(es, k, env, rev) ==
  IF k > Len(es) THEN env
  ELSE LET c == es[k]
           bx == IF Len(c.bx) = 0 THEN <<<<>>>>
                 ELSE IF rev /\ c.par THEN Reverse(CatSeq([j \in DOMAIN c.bx |-> Points(c.bx[j])]))
                 ELSE c.bx
       IN RunEntries(es, k + 1, RunPoints(c.f, bx, 1, env, rev), rev)
Body(b, k, env, rev) ==
  IF k > Len(b) \/ env.bad \/ env.out # 0 THEN env
  ELSE LET s == b[k]
           Bad == [env EXCEPT !.bad = TRUE]
           Next(e) == Body(b, k + 1, e, rev)
       IN
  CASE s.s = "proc" -> Next(Proc(s.n, [j \in DOMAIN s.a |-> Eval(s.a[j], env)], env, rev))
    [] s.s = "eq" -> Next(RunEntries(<<s>>, 1, env, rev))
    [] s.s = "sched_create" -> IF s.n \in DOMAIN env.pool THEN Bad ELSE Next([env EXCEPT !.pool = (s.n :> <<>>) @@ @])
    [] s.s = "sched_add" -> IF s.n \notin DOMAIN env.pool THEN Bad ELSE Next([env EXCEPT !.pool[s.n] = Append(@, s)])
    [] s.s = "sched_destroy" -> IF s.n \notin DOMAIN env.pool THEN Bad
                                ELSE Next([env EXCEPT !.pool = [n \in (DOMAIN @) \ {s.n} |-> @[n]]])
    \* A scheduler runs its equations in any order.
    [] s.s = "sched_run" -> IF s.n \notin DOMAIN env.pool THEN Bad
                            ELSE Next(RunEntries(IF rev THEN Reverse(env.pool[s.n]) ELSE env.pool[s.n], 1, env, rev))
    [] s.s = "result" -> Next([env EXCEPT !.res = Eval(s.e, env)])
    [] OTHER -> Next(Exec(<<s>>, 1, env))

At(m, p) == [v |-> m, t |-> <<>>, ind |-> <<>>, der |-> <<>>, fn |-> prog.fn, time |-> 0, out |-> 0,
             pool |-> p, res |-> Scalar("r", 0), bad |-> FALSE]
RECURSIVE Calls(_, _, _, _)
Calls(cs, k, env, rev) == IF k > Len(cs) THEN env ELSE Calls(cs, k + 1, Proc(cs[k][1], cs[k][2], env, rev), rev)

(* What the program says of itself.                                          *)
PlaceOf(n, rt) == CHOOSE k \in DOMAIN rt.names : rt.names[k] = n
IsDer(k, rt) == \E j \in DOMAIN rt.dermap : rt.dermap[j] = k - 1
StateOf(k, rt) == rt.names[CHOOSE j \in DOMAIN rt.dermap : rt.dermap[j] = k - 1]
SourceVar(n, s) == s.vars[CHOOSE k \in DOMAIN s.vars : s.vars[k].n = n]
IsSource(n, s) == \E k \in DOMAIN s.vars : s.vars[k].n = n
\* The variables whose shape the source tells: its own and their derivatives.
Known(s, rt) == {k \in DOMAIN rt.names : IsSource(rt.names[k], s) \/ (IsDer(k, rt) /\ IsSource(StateOf(k, rt), s))}
VarAt(k, s, rt) == IF IsSource(rt.names[k], s) THEN SourceVar(rt.names[k], s) ELSE SourceVar(StateOf(k, rt), s)

\* The points of an array of shape s, in row-major order, zero-based.
PointAt(s, j) == LET RECURSIVE Go(_, _)
                     Go(k, r) == IF k = 0 THEN <<>> ELSE Append(Go(k - 1, r \div s[k]), r % s[k])
                 IN Go(Len(s), j)
ShapePoints(s) == {PointAt(s, j) : j \in 0 .. Prod(s) - 1}

\* The elements that the filter selects.  A slice left out stands for all.
Covers(p, r) == \A k \in DOMAIN p : k <= Len(r) => ((r[k][1] = 0 \/ r[k][1] - 1 <= p[k]) /\ (r[k][2] = 0 \/ p[k] < r[k][2]))
Entries(s, t, n) == {k \in DOMAIN s.filter : s.filter[k].t = t /\ s.filter[k].s = n}
RegexHits(s, n) == \E k \in DOMAIN s.filter : s.filter[k].t = "regex" /\ \E j \in DOMAIN s.filter[k].hits : s.filter[k].hits[j] = n
Selected(k, s, rt) ==
  LET all == ShapePoints(VarAt(k, s, rt).sh)
      n == rt.names[k]
  IN IF IsDer(k, rt)
     THEN (IF Entries(s, "der", StateOf(k, rt)) # {} \/ RegexHits(s, "der(" \o StateOf(k, rt) \o ")") THEN all ELSE {})
     ELSE IF Entries(s, "var", n) # {}
     THEN {p \in all : \E e \in Entries(s, "var", n) : Covers(p, s.filter[e].r)}
     ELSE IF s.filter = <<>> \/ RegexHits(s, n) THEN all ELSE {}
Printed(k, rt) == LET p == rt.printable[k]
                  IN IF p.scalar THEN (IF p.on THEN {<<>>} ELSE {}) ELSE {p.ix[j] : j \in DOMAIN p.ix}

Consistent(s, rt) ==
  LET n == Len(rt.names) IN
  /\ rt.count = n /\ Len(rt.ranks) = n /\ Len(rt.printable) = n /\ Len(rt.dermap) = n /\ Len(rt.getters) = n
  /\ \A i, j \in 1 .. n : rt.names[i] = rt.names[j] => i = j
  /\ \A k \in DOMAIN s.vars : \E i \in 1 .. n : rt.names[i] = s.vars[k].n /\ rt.ranks[i] = Len(s.vars[k].sh)
  /\ \A i \in 1 .. n : rt.dermap[i] \in -1 .. n - 1 /\ (rt.dermap[i] >= 0 => rt.ranks[rt.dermap[i] + 1] = rt.ranks[i])
  /\ \A i, j \in 1 .. n : rt.dermap[i] = rt.dermap[j] /\ rt.dermap[i] >= 0 => i = j
  /\ \A k \in DOMAIN s.vars : (rt.dermap[PlaceOf(s.vars[k].n, rt)] >= 0) = (\E j \in DOMAIN s.states : s.states[j] = s.vars[k].n)
  /\ \A k \in Known(s, rt) : rt.printable[k].scalar = (rt.ranks[k] = 0) /\ Printed(k, rt) = Selected(k, s, rt)
  /\ rt.name = s.name /\ rt.start = s.start /\ rt.end = s.end

(* Reports.                                                                  *)
Back(t, x) == IF t = "i" THEN C(x) ELSE x
Report(m, p, s, rt) ==
  [n \in {rt.names[k] : k \in Known(s, rt)} |->
     LET k == PlaceOf(n, rt)
         d == VarAt(k, s, rt)
         Get(j) == LET q == PointAt(d.sh, j - 1)
                   IN Proc(rt.getters[k], [i \in DOMAIN q |-> Scalar("i", q[i])], At(m, p), FALSE)
     IN T(d.t, d.sh, [j \in 1 .. Prod(d.sh) |-> Back(d.t, Val(Get(j).res))])]
TimeOf(m, p) == Val(Proc("getTime", <<>>, At(m, p), FALSE).res)

RtProgram(rt) == [proc |-> ByName(rt.procs), fn |-> ByName(rt.funcs), rt |-> rt,
                  der |-> [n \in {rt.names[k] : k \in {j \in DOMAIN rt.dermap : rt.dermap[j] >= 0}} |->
                             rt.names[rt.dermap[PlaceOf(n, rt)] + 1]]]
Garbage(gs, seed) ==
  [n \in {gs[k].n : k \in DOMAIN gs} |->
     LET k == IndexOf(n, gs, 1)
         d == gs[k]
     IN T(d.t, d.sh, [j \in 1 .. Prod(d.sh) |-> IF d.t = "r" THEN R((R(k * 7919) * R(j * 4099 + seed)) + seed) ELSE 0])]

(* Actions.                                                                  *)
Build(rt, s, seed) ==
  /\ Consistent(s, rt) = TRUE
  /\ prog' = RtProgram(rt)
  /\ src' = [s EXCEPT !.fn = ByName(s.fn)]
  /\ mem' = Garbage(rt.globals, seed) /\ pool' = <<>>
  /\ vals' = <<>> /\ phase' = "built" /\ now' = 0

\* The effect of a list of calls: the same whatever order is chosen, and
\* without steps that have no meaning.
Does(cs, Ok(_, _)) ==
  LET a == Calls(cs, 1, At(mem, pool), FALSE)
      b == Calls(cs, 1, At(mem, pool), TRUE)
      v == Report(a.v, a.pool, src, prog.rt)
      w == Report(b.v, b.pool, src, prog.rt)
  IN /\ ~a.bad /\ ~b.bad
     /\ SameValues(v, w, DOMAIN v)
     /\ Ok(v, a)
Becomes(cs, ph) ==
  LET a == Calls(cs, 1, At(mem, pool), FALSE)
      v == Report(a.v, a.pool, src, prog.rt)
  IN mem' = a.v /\ pool' = a.pool /\ vals' = v /\ now' = TimeOf(a.v, a.pool) /\ phase' = ph /\ UNCHANGED <<prog, src>>
Real(x) == Scalar("r", x)

\* Initial values come from the source, whatever was in memory; the schedulers
\* of the initialization are gone when it is over.
Launching(t) == <<<<"#init", <<>>>>, <<"setTime", <<Real(t)>>>>, <<"#icBegin", <<>>>>, <<"solveICModel", <<>>>>, <<"#icEnd", <<>>>>>>
Launch(t) ==
  /\ phase = "built"
  /\ Does(Launching(t), LAMBDA v, a : TimeOf(a.v, a.pool) = t /\ Settled(v, t) /\ InitialHold(v, t) /\ DOMAIN a.pool = {}) = TRUE
  /\ Becomes(Launching(t) \o <<<<"#dynBegin", <<>>>>>>, "settled")

Advance(h) ==
  LET moved(n) == LET x == vals[n]
                      d == vals[prog.der[n]]
                  IN T("r", x.s, [k \in DOMAIN x.d |-> R(x.d[k] + R(R(h) * R(d.d[k])))])
      cs == <<<<"updateStateVariables", <<Real(h)>>>>>>
  IN /\ phase = "settled"
     /\ Does(cs, LAMBDA v, a : /\ \A n \in States : Same(v[n], moved(n))
                               /\ SameValues(v, vals, (DOMAIN v) \ States)
                               /\ TimeOf(a.v, a.pool) = now) = TRUE
     /\ Becomes(cs, "stale")

Update(t) ==
  LET cs == <<<<"setTime", <<Real(t)>>>>, <<"updateNonStateVariables", <<>>>>>>
  IN /\ phase = "stale"
     /\ Does(cs, LAMBDA v, a : TimeOf(a.v, a.pool) = t /\ Settled(v, t) /\ SameValues(v, vals, States \cup Constants)) = TRUE
     /\ Becomes(cs, "settled")

Halt ==
  /\ phase = "settled"
  /\ Does(<<<<"#dynEnd", <<>>>>>>, LAMBDA v, a : SameValues(v, vals, DOMAIN v) /\ DOMAIN a.pool = {}) = TRUE
  /\ Becomes(<<<<"#dynEnd", <<>>>>>>, "built")

RtInit == Init /\ mem = <<>> /\ pool = <<>>
=============================================================================
