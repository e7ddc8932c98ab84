---------------------------- MODULE FiltersTrace ----------------------------
(* Filter texts given to VariableFilter::fromString and queries to what it  *)
(* returns.                                                                 *)
EXTENDS Filters, TraceKit
VARIABLE filter   \* the entries of the last text

Has(seq, P(_)) == \E k \in DOMAIN seq : P(seq[k])
\* e.res: the expressions of the text, structured; e.rx: what the regular
\* expression library says of those that are not among them.
Structured(e, t) == Has(e.res, LAMBDA x : Written(x) = t)
Pick(e, t) == CHOOSE k \in DOMAIN e.res : Written(e.res[k]) = t
Valid(e, t) == Structured(e, t) \/ Has(e.rx, LAMBDA x : x.r = t /\ x.valid)
Match(e, t, name) == IF Structured(e, t) THEN Found(e.res[Pick(e, t)], name)
                     ELSE Has(e.rx, LAMBDA x : x.r = t /\ Has(x.hits, LAMBDA h : h = name))
Answer(e, q, entries) ==
  IF q.der THEN Derivative(entries, q.name, q.rank, LAMBDA t, n : Match(e, t, n))
  ELSE Variable(entries, q.name, q.rank, LAMBDA t, n : Match(e, t, n))

TraceNext ==
  \/ /\ IsEvent("filter")
     /\ LET r == Filter(E.text, LAMBDA t : Valid(E, t))
        IN  /\ (E.ok = r.ok /\ (~r.ok => E.diagnostic)) = TRUE
            /\ (r.ok => /\ ~E.diagnostic
                        /\ E.enabled = (r.v # <<>>)
                        /\ \A k \in DOMAIN E.queries : E.answers[k] = Answer(E, E.queries[k], r.v)) = TRUE
            /\ filter' = r.v
TraceInit == filter = <<>> /\ l = 1
TraceSpec == TraceInit /\ [][TraceNext]_<<filter, l>>
=============================================================================
