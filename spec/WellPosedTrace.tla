--------------------------- MODULE WellPosedTrace ---------------------------
(* A model that is not well posed is refused with an error; one that is      *)
(* known to be within what the compiler supports is accepted.                *)
EXTENDS WellPosed, TraceKit

vars == <<prog, src, phase, vals, now, l>>
TraceNext ==
  /\ IsEvent("compile")
  /\ (IF E.expect = "ok" THEN WellPosed(E.src) /\ E.ok /\ E.errors = 0
      ELSE IF ~WellPosed(E.src) THEN ~E.ok /\ E.errors > 0
      ELSE E.ok = (E.errors = 0)) = TRUE
  /\ UNCHANGED <<prog, src, phase, vals, now>>
TraceInit == Init /\ l = 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
