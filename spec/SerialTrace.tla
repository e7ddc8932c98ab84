----------------------------- MODULE SerialTrace -----------------------------
(* Documents recorded from the real code: read from a text, then written as  *)
(* text, as generic text and as bytecode, and each of them read again.       *)
EXTENDS Serial, TraceKit
VARIABLE doc        \* the value of the document at hand, or <<>>

(* What was observed is the value v: sets are given as the points in them,   *)
(* each of them once.                                                        *)
Shows(obs, kind, v) ==
  IF kind \in {"range", "box"} THEN obs.ann = <<>> /\ obs.attrs = v.words
  ELSE /\ Len(obs.ann) = 1
       /\ LET a == obs.ann[1]
          IN /\ a.k = kind /\ a.names = v.names /\ a.words = v.words
             /\ Len(a.sets) = Len(v.sets)
             /\ \A k \in DOMAIN v.sets : Enumerates(a.sets[k].p, v.sets[k])

Forms == <<"pretty", "generic", "bytecode">>
Again(chan, Same(_)) ==
  /\ [k \in DOMAIN chan |-> chan[k].n] = Forms
  /\ \A k \in DOMAIN chan : chan[k].ok /\ chan[k].errors = 0 /\ Same(chan[k].val)

Annotated ==
  /\ IsEvent("annot") /\ E.kind # "consts"
  /\ LET r == Read(E.kind, E.toks, E.order)
     IN IF ~Decided(E.kind, E.toks) THEN doc' = <<>>
        ELSE IF r.ok
        THEN /\ (E.ok /\ E.errs = 0 /\ Shows(E.val, E.kind, r.v) /\ Again(E.chan, LAMBDA o : Shows(o, E.kind, r.v))) = TRUE
             /\ doc' = r.v
        ELSE /\ (~E.ok /\ E.errs > 0) = TRUE
             /\ doc' = <<>>
(* Constants are given as the values they have.                              *)
Constants ==
  /\ IsEvent("annot") /\ E.kind = "consts"
  /\ (E.ok /\ E.errs = 0 /\ E.val.attrs = E.want /\ Again(E.chan, LAMBDA o : o.attrs = E.want)) = TRUE
  /\ doc' = E.want
(* A whole program, compiled up to some point: everything in it stays.       *)
Program ==
  /\ IsEvent("compile")
  /\ (E.ok => Again(E.chan, LAMBDA o : o = E.before)) = TRUE
  /\ doc' = IF E.ok THEN E.before ELSE <<>>
TraceNext == Annotated \/ Constants \/ Program
TraceInit == doc = <<>> /\ l = 1
TraceSpec == TraceInit /\ [][TraceNext]_<<doc, l>>
=============================================================================
