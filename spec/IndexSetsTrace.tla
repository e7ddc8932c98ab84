-------------------------- MODULE IndexSetsTrace --------------------------
(* Is a recorded run of the real IndexSet a behaviour of IndexSets?        *)
EXTENDS IndexSets, TraceKit

(* What every state-changing call must show afterwards.                    *)
Shown(S) ==
  /\ Enumerates(E.pts, S)
  /\ Partition(E.boxes, S)
  /\ E.size = Cardinality(S)
  /\ E.empty = (S = {})

Upd(op, A) == IsEvent(op) /\ A /\ Shown(regs'[E.r])

TReset == IsEvent("reset") /\ regs' = [r \in Regs |-> {}]

TraceNext ==
  \/ TReset
  \/ Upd("new", New(E.r))
  \/ Upd("clear", New(E.r))
  \/ Upd("ofPoints", OfPoints(E.r, E.pts0))
  \/ Upd("ofBoxes", OfBoxes(E.r, E.boxes0))
  \/ Upd("setBoxes", OfBoxes(E.r, E.boxes0))
  \/ Upd("copy", Copy(E.r, E.a))
  \/ Upd("addPoint", AddPoint(E.r, E.p))
  \/ Upd("addBox", AddBox(E.r, E.box))
  \/ Upd("addSet", AddSet(E.r, E.a))
  \/ Upd("subPoint", SubPoint(E.r, E.p))
  \/ Upd("subBox", SubBox(E.r, E.box))
  \/ Upd("subSet", SubSet(E.r, E.a))
  \/ Upd("plus", Plus(E.r, E.a, E.b))
  \/ Upd("minus", Minus(E.r, E.a, E.b))
  \/ Upd("plusBox", PlusBox(E.r, E.a, E.box))
  \/ Upd("minusBox", MinusBox(E.r, E.a, E.box))
  \/ Upd("plusPoint", PlusPoint(E.r, E.a, E.p))
  \/ Upd("minusPoint", MinusPoint(E.r, E.a, E.p))
  \/ Upd("isectBox", IsectBox(E.r, E.a, E.box))
  \/ Upd("isect", Isect(E.r, E.a, E.b))
  \/ Upd("compl", Compl(E.r, E.a, E.box))
  \/ Upd("slice", Slice(E.r, E.a, E.f))
  \/ Upd("takeDims", Slice(E.r, E.a, E.f))
  \/ Upd("takeFirst", TakeFirst(E.r, E.a, E.n))
  \/ Upd("takeLast", TakeLast(E.r, E.a, E.n))
  \/ Upd("dropFirst", DropFirst(E.r, E.a, E.n))
  \/ Upd("dropLast", DropLast(E.r, E.a, E.n))
  \/ Upd("append", AppendOp(E.r, E.a, E.b))
  \/ Upd("prepend", PrependOp(E.r, E.a, E.b))
  \/ Upd("show", Observe)          \* the operands of earlier calls are intact
  \/ /\ IsEvent("compact") /\ Observe
     /\ Partition(E.res, regs[E.a])
  \/ /\ IsEvent("q") /\ Observe
     /\ E.cp = ContainsPoint(E.a, E.p)
     /\ E.cb = ContainsBox(E.a, E.box)
     /\ E.cs = ContainsSet(E.a, E.b)
     /\ E.ob = OverlapsBox(E.a, E.box)
     /\ E.os = OverlapsSet(E.a, E.b)
     \* An empty set remembers the rank of the points it once held; two empty
     \* sets of different rank are sets over different spaces and may differ.
     /\ E.rankEq => E.eq = Equal(E.a, E.b)
     /\ ~E.rankEq => (E.eq => Equal(E.a, E.b))
     /\ E.ne = ~E.eq
     /\ E.mapEq = E.eq
     /\ E.eqb = (regs[E.a] = BoxPts(E.box))
     /\ E.neb = ~E.eqb
     /\ E.eqp = (regs[E.a] = {E.p}) /\ E.nep = ~E.eqp
     /\ Equal(E.a, E.b) => E.hashEq
     /\ E.cmp0 => Equal(E.a, E.b)

TraceInit == Init /\ l = 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
