---------------------------- MODULE RuntimeTrace ----------------------------
EXTENDS RuntimeProgram, TraceKit

vars == <<prog, src, phase, vals, now, mem, pool, l>>
Same0 == UNCHANGED <<prog, src, phase, vals, now, mem, pool>>
TraceNext ==
  \/ /\ IsEvent("compile")
     /\ E.ok /\ E.errors = 0
     /\ IF "unknown" \in DOMAIN E THEN phase' = "skip" /\ UNCHANGED <<prog, src, vals, now, mem, pool>>
        ELSE Build(E.ir[1], E.src, E.seed)
  \/ IsEvent("ic") /\ (IF phase = "skip" THEN Same0 ELSE Launch(E.time))
  \/ IsEvent("advance") /\ (IF phase = "skip" THEN Same0 ELSE Advance(E.h))
  \/ IsEvent("update") /\ (IF phase = "skip" THEN Same0 ELSE Update(E.time))
  \/ IsEvent("halt") /\ (IF phase = "skip" THEN Same0 ELSE Halt)

TraceInit == RtInit /\ l = 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
