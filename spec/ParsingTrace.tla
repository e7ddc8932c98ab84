---------------------------- MODULE ParsingTrace ----------------------------
(* The parser against the grammar: a text is accepted exactly when its      *)
(* tokens are a sentence, its tree is the one the grammar defines, and a    *)
(* rejection comes with a diagnostic.  Copies of trees against Trees.       *)
EXTENDS Grammar, TraceKit

VARIABLE tree   \* the tree of the last text, or <<>> when it was rejected

Verdict(toks, e) ==
  LET r == Parse(Prod["root"], toks, 1)
  IN  IF Accepts(r, toks)
      THEN /\ e.ok /\ e.errors = 0 /\ e.tree = r.v[1]
      ELSE /\ ~e.ok /\ e.errors > 0

\* ---- positions: line and column, from one
Before(a, b, c, d) == a < c \/ (a = c /\ b <= d)
Inside(n, lines) ==
  LET bl == n[4]  bc == n[5]  el == n[6]  ec == n[7]
  IN  /\ bl >= 1 /\ el <= Len(lines) /\ Before(bl, bc, el, ec)
      /\ bc >= 1 /\ bc <= lines[bl] + 1 /\ ec >= 1 /\ ec <= lines[el] + 1
\* Every node but the outermost has its container as parent.
Parented(nodes) == \A k \in DOMAIN nodes : k > 1 => nodes[k][3] = nodes[k][2]
Range(f) == {f[k] : k \in DOMAIN f}
Places(nodes) == [k \in DOMAIN nodes |-> SubSeq(nodes[k], 4, 7)]
Kinds(nodes) == [k \in DOMAIN nodes |-> nodes[k][1]]

Copied(e) ==
  /\ Parented(e.nodes) /\ \A k \in DOMAIN e.nodes : e.nodes[k][2] > 0 => Inside(e.nodes[k], e.lines)
  \* equal, and nothing shared
  /\ e.copy = e.sub /\ Places(e.copynodes) = Places(e.subnodes) /\ Kinds(e.copynodes) = Kinds(e.subnodes)
  /\ Range(e.ids) \cap Range(e.copyids) = {}
  /\ \A k, m \in DOMAIN e.ids : e.ids[k] = e.ids[m] => k = m
  /\ \A k, m \in DOMAIN e.copyids : e.copyids[k] = e.copyids[m] => k = m
  /\ Parented(e.copynodes)
  \* a change of one side is not seen on the other
  /\ IF e.side = 0
     THEN e.copy2 = e.copy /\ (e.changed => e.sub2 # e.sub)
     ELSE e.sub2 = e.sub /\ (e.changed => e.copy2 # e.copy)
  \* nor is its end
  /\ e.copy3 = e.copy2

TraceNext ==
  \/ /\ IsEvent("parse") /\ Verdict(E.toks, E) = TRUE
     /\ tree' = IF E.ok THEN E.tree ELSE <<>>
  \* any bytes: the tokens are those the lexer makes of them
  \/ /\ IsEvent("fuzz") /\ Verdict(E.toks, E) = TRUE
     /\ tree' = IF E.ok THEN E.tree ELSE <<>>
  \* too long for the grammar to be consulted
  \/ /\ IsEvent("deep") /\ (E.ok <=> (E.errors = 0)) = TRUE /\ tree' = <<>>
     /\ (E.must = "accept" => E.ok) = TRUE
     /\ (E.must = "reject" => ~E.ok) = TRUE
  \/ /\ IsEvent("copy") /\ Verdict(E.toks, E) = TRUE
     /\ (E.ok => Copied(E)) = TRUE
     /\ tree' = IF E.ok THEN E.tree ELSE <<>>

TraceInit == tree = <<>> /\ l = 1
TraceSpec == TraceInit /\ [][TraceNext]_<<tree, l>>
=============================================================================
