----------------------------- MODULE TraceKit -----------------------------
(* Common parts of every trace specification: the recorded events, the     *)
(* cursor, event matching, and acceptance of the whole trace.              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1

Progress ==
  LET d == TLCGet("stats").diameter - 1
  IN  IF d = Len(Trace) THEN TRUE
      ELSE PrintT(<<"REJECTED", d, Len(Trace)>>) /\ FALSE
=============================================================================
