----------------------------- MODULE Simulation -----------------------------
(* A compiled model as a state machine: the values of all variables, moved   *)
(* by the three entry points of the generated program (initialization, state *)
(* update, update of the other variables).  The source model says what has   *)
(* to hold in between.                                                       *)
EXTENDS IR

VARIABLES prog,   \* the compiled program (a constant of the behaviour)
          src,    \* the source model
          phase,  \* "none", "compiled", "settled", "stale", "skip"
          vals,   \* the values of the program's variables
          now     \* the simulated time

ByName(list) == [n \in {list[k].n : k \in DOMAIN list} |-> list[CHOOSE k \in DOMAIN list : list[k].n = n]]
Program(ir) ==
  LET m == ir.models[1]
  IN [eqf |-> ByName(ir.eqf), rtf |-> ByName(ir.rtf), fn |-> ByName(ir.funcs),
      vars |-> m.vars,
      sched |-> [n \in {m.scheds[k].n : k \in DOMAIN m.scheds} |->
                   m.scheds[CHOOSE k \in DOMAIN m.scheds : m.scheds[k].n = n].g],
      der |-> [n \in {m.der[k].n : k \in DOMAIN m.der} |->
                 m.der[CHOOSE k \in DOMAIN m.der : m.der[k].n = n].d]]
NoProgram == [eqf |-> <<>>]
NoSource == [vars |-> <<>>]
Env(v, fn, t) == [v |-> v, t |-> <<>>, ind |-> <<>>, der |-> prog.der, fn |-> fn, time |-> t, out |-> 0]

\* Whatever was in memory before the initialization.
Junk(vars, seed) ==
  [n \in {vars[k].n : k \in DOMAIN vars} \cup {"$timeStep"} |->
     IF n = "$timeStep" THEN Scalar("r", 0)
     ELSE LET k == IndexOf(n, vars, 1)
              d == vars[k]
          IN T(d.t, d.sh, [j \in 1 .. Prod(d.sh) |->
               IF d.t = "r" THEN R((R(k * 7919) * R(j * 4099 + seed)) + seed) ELSE 0])]

(* The conditions imposed by the source.                                     *)
SourceEnv(v, t) == Env(v, src.fn, t)
EquationsHold(v, t) == \A k \in DOMAIN src.eqs : EquationHolds(src.eqs[k], SourceEnv(v, t))
InitialHold(v, t) == \A k \in DOMAIN src.init : EquationHolds(src.init[k], SourceEnv(v, t))
\* A model algorithm, run from the start values of the variables it assigns,
\* yields the values they have.
AlgorithmsHold(v, t) ==
  \A k \in DOMAIN src.algs :
    LET a == src.algs[k]
        v0 == [n \in DOMAIN v |-> IF \E j \in DOMAIN a.outs : a.outs[j].n = n
                                  THEN Eval(a.outs[CHOOSE j \in DOMAIN a.outs : a.outs[j].n = n].e, SourceEnv(v, t)) ELSE v[n]]
        v1 == Exec(a.b, 1, SourceEnv(v0, t)).v
    IN \A j \in DOMAIN a.outs : Same(v1[a.outs[j].n], v[a.outs[j].n])

Run(entry, args, v, t, rev) == RunEntry(entry, args, prog, Env(v, prog.fn, t), rev).v
States == {src.states[k] : k \in DOMAIN src.states}
Constants == {src.params[k] : k \in DOMAIN src.params}
Declared(s, p) ==
  \A k \in DOMAIN s.vars : \E j \in DOMAIN p.vars :
    p.vars[j].n = s.vars[k].n /\ p.vars[j].sh = s.vars[k].sh /\ p.vars[j].t = s.vars[k].t
SameValues(a, b, names) == \A n \in names : Same(a[n], b[n])

(* Actions.                                                                  *)
Compile(ir, s, seed) ==
  /\ prog' = Program(ir)
  /\ src' = [s EXCEPT !.fn = ByName(s.fn)]
  /\ Declared(s, Program(ir)) = TRUE
  /\ vals' = Junk(Program(ir).vars, seed)
  /\ phase' = "compiled"
  /\ now' = 0

Settled(v, t) == EquationsHold(v, t) /\ AlgorithmsHold(v, t)

Initialize(t) ==
  LET v == Run("solveICModel", <<>>, vals, t, FALSE)
      w == Run("solveICModel", <<>>, vals, t, TRUE)
  IN /\ phase = "compiled"
     /\ (SameValues(v, w, DOMAIN v) /\ Settled(v, t) /\ InitialHold(v, t)) = TRUE
     /\ vals' = v /\ phase' = "settled" /\ now' = t
     /\ UNCHANGED <<prog, src>>

\* Forward Euler: each state moves along its derivative, nothing else changes.
EulerStep(h) ==
  LET v == Run("updateStateVariables", <<Scalar("r", h)>>, vals, now, FALSE)
      w == Run("updateStateVariables", <<Scalar("r", h)>>, vals, now, TRUE)
      moved(n) == LET x == vals[n]
                      d == vals[prog.der[n]]
                  IN T("r", x.s, [k \in DOMAIN x.d |-> R(x.d[k] + R(R(h) * R(d.d[k])))])
  IN /\ phase = "settled"
     /\ (/\ SameValues(v, w, DOMAIN v)
         /\ \A n \in States : n \in DOMAIN prog.der /\ Same(v[n], moved(n))
         /\ SameValues(v, vals, (DOMAIN v) \ (States \cup {"$timeStep"}))) = TRUE
     /\ vals' = v /\ phase' = "stale"
     /\ UNCHANGED <<prog, src, now>>

Refresh(t) ==
  LET v == Run("updateNonStateVariables", <<>>, vals, t, FALSE)
      w == Run("updateNonStateVariables", <<>>, vals, t, TRUE)
  IN /\ phase = "stale"
     /\ (/\ SameValues(v, w, DOMAIN v)
         /\ Settled(v, t)
         /\ SameValues(v, vals, States \cup Constants)) = TRUE
     /\ vals' = v /\ phase' = "settled" /\ now' = t
     /\ UNCHANGED <<prog, src>>

Init == prog = NoProgram /\ src = NoSource /\ phase = "none" /\ vals = <<>> /\ now = 0
=============================================================================
