-------------------------- MODULE SimulationTrace --------------------------
EXTENDS Simulation, TraceKit

vars == <<prog, src, phase, vals, now, l>>
Skip == phase' = "skip" /\ UNCHANGED <<prog, src, vals, now>>

TraceNext ==
  \/ /\ IsEvent("compile")
     /\ IF E.expect = "reject"
        THEN (~E.ok /\ E.errors > 0) = TRUE /\ Skip
        ELSE /\ E.ok /\ E.errors = 0
             /\ IF "unknown" \in DOMAIN E THEN Skip
                ELSE Compile(E.ir[1], E.src, E.seed)
  \/ IsEvent("ic") /\ (IF phase = "skip" THEN UNCHANGED <<prog, src, phase, vals, now>> ELSE Initialize(E.time))
  \/ IsEvent("advance") /\ (IF phase = "skip" THEN UNCHANGED <<prog, src, phase, vals, now>> ELSE EulerStep(E.h))
  \/ IsEvent("update") /\ (IF phase = "skip" THEN UNCHANGED <<prog, src, phase, vals, now>> ELSE Refresh(E.time))

TraceInit == Init /\ l = 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
