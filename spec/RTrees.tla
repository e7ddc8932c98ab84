------------------------------- MODULE RTrees -------------------------------
(* The spatial tree: a bag of objects <<id, box>> held in a balanced tree   *)
(* of bounding boxes.  The contents evolve deterministically; the shape of  *)
(* the tree after an operation may be any well-formed tree over the         *)
(* contents (the specification leaves the choice of splits open).           *)
EXTENDS Boxes

CONSTANT Regs
VARIABLES bag,   \* [Regs -> bag of objects: a function object -> count > 0]
          lim    \* [Regs -> <<min, max>> occupancy]
vars == <<bag, lim>>

EmptyBag == [o \in {} |-> 0]
BagAdd(B, o) == IF o \in DOMAIN B THEN [B EXCEPT ![o] = @ + 1]
                ELSE [x \in DOMAIN B \cup {o} |-> IF x = o THEN 1 ELSE B[x]]
BagSum(B, C) == [x \in DOMAIN B \cup DOMAIN C |->
                   (IF x \in DOMAIN B THEN B[x] ELSE 0) + (IF x \in DOMAIN C THEN C[x] ELSE 0)]
BagDel(B, o) == [x \in DOMAIN B \ {o} |-> B[x]]
BagOf(seq)   == [x \in RangeOf(seq) |-> Cardinality({k \in DOMAIN seq : seq[k] = x})]
RECURSIVE BagCount(_)
BagCount(B) == IF DOMAIN B = {} THEN 0
               ELSE LET x == CHOOSE x \in DOMAIN B : TRUE IN B[x] + BagCount(BagDel(B, x))

Init == bag = [r \in Regs |-> EmptyBag] /\ lim = [r \in Regs |-> <<4, 16>>]

New(r, mn, mx) == bag' = [bag EXCEPT ![r] = EmptyBag] /\ lim' = [lim EXCEPT ![r] = <<mn, mx>>]
Put(r, B)      == bag' = [bag EXCEPT ![r] = B] /\ UNCHANGED lim
Insert(r, o)   == Put(r, BagAdd(bag[r], o))
Remove(r, o)   == Put(r, BagDel(bag[r], o))          \* every equal object goes
Load(r, os)    == Put(r, BagOf(os))
InsertAll(r, a) == Put(r, BagSum(bag[r], bag[a]))
RemoveAll(r, a) == Put(r, [x \in DOMAIN bag[r] \ DOMAIN bag[a] |-> bag[r][x]])
Clear(r)       == Put(r, EmptyBag)
Copy(r, a)     == bag' = [bag EXCEPT ![r] = bag[a]] /\ lim' = [lim EXCEPT ![r] = lim[a]]

-----------------------------------------------------------------------------
(* A logged tree: <<>> or <<root>>; a node is a record                      *)
(*   b: bounding box, up: parent link right, area: cached volume,           *)
(*   leaf, mixed, e: children or <<id, box>> entries.                       *)
EntryBox(n, k) == IF n.leaf THEN n.e[k][2] ELSE n.e[k].b
RECURSIVE Depth(_)
Depth(n) == IF n.leaf THEN 1 ELSE 1 + Depth(n.e[1])
RECURSIVE Objects(_)
Objects(n) ==
  IF n.leaf THEN n.e
  ELSE LET RECURSIVE go(_)
           go(k) == IF k = 0 THEN <<>> ELSE go(k - 1) \o Objects(n.e[k])
       IN go(Len(n.e))
RECURSIVE NodeOK(_, _, _)
NodeOK(n, isRoot, L) ==
  /\ n.up /\ ~n.mixed
  /\ Len(n.e) >= 1
  /\ n.b = HullAll([k \in DOMAIN n.e |-> EntryBox(n, k)])
  /\ n.area = BoxVol(n.b)
  /\ Len(n.e) <= L[2]
  /\ ~isRoot => Len(n.e) >= L[1]
  /\ (isRoot /\ ~n.leaf) => Len(n.e) >= 2
  /\ ~n.leaf => \A k \in DOMAIN n.e : Depth(n.e[k]) = Depth(n.e[1]) /\ NodeOK(n.e[k], FALSE, L)
TreeOK(t, L) == t = <<>> \/ (Len(t) = 1 /\ NodeOK(t[1], TRUE, L))
TreeBag(t) == IF t = <<>> THEN EmptyBag ELSE BagOf(Objects(t[1]))
=============================================================================
