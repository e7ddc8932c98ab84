---------------------------- MODULE RTreesTrace ----------------------------
EXTENDS RTrees, TraceKit

Shown(B, L) ==
  /\ TreeOK(E.tree, L)
  /\ TreeBag(E.tree) = B
  /\ BagOf(E.it) = B
  /\ E.size = Len(E.it)
  /\ E.empty = (B = EmptyBag)

Upd(op, A) == IsEvent(op) /\ A /\ Shown(bag'[E.r], lim'[E.r])
Obj == <<E.id, E.box>>

TraceNext ==
  \/ IsEvent("reset") /\ bag' = [r \in Regs |-> EmptyBag] /\ lim' = [r \in Regs |-> <<4, 16>>]
  \/ Upd("tnew", New(E.r, E.min, E.max))
  \/ Upd("tload", Load(E.r, E.objs))
  \/ Upd("tins", Insert(E.r, Obj))
  \/ Upd("trem", Remove(E.r, Obj))
  \/ Upd("tinsAll", InsertAll(E.r, E.a))
  \/ Upd("tremAll", RemoveAll(E.r, E.a))
  \/ Upd("tcopy", Copy(E.r, E.a))
  \/ Upd("tclear", Clear(E.r))
  \/ /\ IsEvent("tq") /\ UNCHANGED vars
     /\ BagOf(E.hits) = [o \in {x \in DOMAIN bag[E.a] : BoxOverlaps(x[2], E.box)} |-> bag[E.a][o]]
     /\ E.has = (Obj \in DOMAIN bag[E.a])
     /\ E.sub = (DOMAIN bag[E.b] \subseteq DOMAIN bag[E.a])
     /\ E.rankEq => E.eq = (DOMAIN bag[E.b] = DOMAIN bag[E.a])

(* Index sets are trees of disjoint boxes; here only their shape matters    *)
(* (the points they denote are decided by IndexSetsTrace).                  *)
SetEvent ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED vars
  /\ "tree" \in DOMAIN E /\ "boxes" \in DOMAIN E
  /\ TreeOK(E.tree, E.lim)
  /\ TreeBag(E.tree) = BagOf([k \in DOMAIN E.boxes |-> <<0, E.boxes[k]>>])
SetQuery == IsEvent("q") /\ UNCHANGED vars

TraceSpec == Init /\ l = 1 /\ [][TraceNext \/ SetEvent \/ SetQuery]_<<vars, l>>
=============================================================================
