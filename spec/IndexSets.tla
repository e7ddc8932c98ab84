----------------------------- MODULE IndexSets -----------------------------
(* The index set data type: a bank of named registers, each denoting a set  *)
(* of integer points.  One action per public operation.  This is the only   *)
(* oracle for C01 and C02: traces of the implementation are checked against *)
(* these actions, whatever representation the implementation uses.          *)
EXTENDS Boxes

CONSTANT Regs
VARIABLE regs
vars == <<regs>>

Init == regs = [r \in Regs |-> {}]

Set(r, S) == regs' = [regs EXCEPT ![r] = S]

\* construction
New(r)            == Set(r, {})
OfPoints(r, ps)   == Set(r, RangeOf(ps))
OfBoxes(r, bs)    == Set(r, Cover(bs))
Copy(r, a)        == Set(r, regs[a])
\* in-place updates
AddPoint(r, p)    == Set(r, regs[r] \cup {p})
AddBox(r, b)      == Set(r, regs[r] \cup BoxPts(b))
AddSet(r, a)      == Set(r, regs[r] \cup regs[a])
SubPoint(r, p)    == Set(r, regs[r] \ {p})
SubBox(r, b)      == Set(r, regs[r] \ BoxPts(b))
SubSet(r, a)      == Set(r, regs[r] \ regs[a])
\* operations returning a new set
Plus(r, a, b)     == Set(r, regs[a] \cup regs[b])
Minus(r, a, b)    == Set(r, regs[a] \ regs[b])
PlusBox(r, a, b)  == Set(r, regs[a] \cup BoxPts(b))
MinusBox(r, a, b) == Set(r, regs[a] \ BoxPts(b))
PlusPoint(r, a, p)  == Set(r, regs[a] \cup {p})
MinusPoint(r, a, p) == Set(r, regs[a] \ {p})
IsectBox(r, a, b) == Set(r, regs[a] \cap BoxPts(b))
Isect(r, a, b)    == Set(r, regs[a] \cap regs[b])
Compl(r, a, b)    == Set(r, BoxPts(b) \ regs[a])
Slice(r, a, f)    == Set(r, {Filter(p, f) : p \in regs[a]})
TakeFirst(r, a, n) == Set(r, {First(p, n) : p \in regs[a]})
TakeLast(r, a, n)  == Set(r, {Last(p, n) : p \in regs[a]})
DropFirst(r, a, n) == Set(r, {Last(p, Len(p) - n) : p \in regs[a]})
DropLast(r, a, n)  == Set(r, {First(p, Len(p) - n) : p \in regs[a]})
AppendOp(r, a, b)  == Set(r, {p \o q : p \in regs[a], q \in regs[b]})
PrependOp(r, a, b) == Set(r, {q \o p : p \in regs[a], q \in regs[b]})
Observe            == UNCHANGED regs

\* observers, as functions of the state
ContainsPoint(a, p) == p \in regs[a]
ContainsBox(a, b)   == BoxPts(b) \subseteq regs[a]
ContainsSet(a, b)   == regs[b] \subseteq regs[a]
OverlapsBox(a, b)   == regs[a] \cap BoxPts(b) # {}
OverlapsSet(a, b)   == regs[a] \cap regs[b] # {}
Equal(a, b)         == regs[a] = regs[b]
=============================================================================
