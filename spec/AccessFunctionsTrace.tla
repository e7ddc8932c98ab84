------------------------ MODULE AccessFunctionsTrace ------------------------
(* Recorded calls on the real access functions.                             *)
EXTENDS AccessFunctions, TraceKit

(* Each call returns values only; the state is the position in the trace.   *)
TMapPoint ==
  /\ IsEvent("mapp")
  /\ LET M == MapPoint(E.f, E.p)
     IN Enumerates(E.out, M)
TMapSet ==
  /\ IsEvent("maps")
  /\ Enumerates(E.out, MapSet(E.f, Cover(E.s)))
TInverseMap ==
  /\ IsEvent("inv")
  /\ LET A == Cover(E.acc)
         P == Cover(E.par)
         R == RangeOf(E.out)
     IN /\ MustInv(E.f, A, P) \subseteq R
        /\ (R \cap P) \subseteq MayInv(E.f, A, P)
        \* outside of the parent only what an invertible function determines
        /\ \A p \in R \ P : IsPermutation(E.f) /\ MapPoint(E.f, p) \subseteq A
        /\ Len(E.out) = Cardinality(R)
TInverse ==
  /\ IsEvent("inverse")
  /\ E.invertible => E.has
  /\ E.has => IsPermutation(E.f)
  /\ (IsPermutation(E.f) /\ E.roto) => E.has
  \* back and forth is the identity
  /\ E.has => \A k \in DOMAIN E.ps : RangeOf(E.back[k]) = {E.ps[k]} /\ RangeOf(E.fwd[k]) = {E.ps[k]}
TCombine ==
  /\ IsEvent("combine")
  /\ E.dims = E.f.dims /\ E.results = Len(E.g.res)
  /\ \A k \in DOMAIN E.ps :
       LET X == MapSet(E.g, MapPoint(E.f, E.ps[k]))
       IN /\ SingleValued(E.f) => Enumerates(E.out[k], X)
          \* the representation cannot tie two uses of one accessed element
          /\ X \subseteq RangeOf(E.out[k])
TGiven ==
  /\ IsEvent("given")
  /\ E.dims = Max2(E.n, E.f.dims) /\ E.results = Len(E.f.res)
  /\ \A k \in DOMAIN E.ps : Enumerates(E.out[k], MapPoint(E.f, E.ps[k]))
TPred ==
  /\ IsEvent("pred")
  /\ E.dims = E.f.dims /\ E.results = Len(E.f.res)
  /\ E.isConst => IsConstantOnGrid(E.f)
  /\ E.isId => IsIdentity(E.f)
  /\ (E.roto /\ IsIdentity(E.f)) => E.isId
  /\ E.isInv => IsPermutation(E.f)
  /\ E.isAffine => SingleValued(E.f)
  /\ E.isAffine => \A k \in DOMAIN E.ps : {E.aff[k]} = MapPoint(E.f, E.ps[k]) \/ E.f.res = <<>>
  /\ E.cloneEq
TEq ==
  /\ IsEvent("eq")
  /\ E.ne = ~E.eq /\ E.eq = E.sym
  /\ E.eq => /\ E.f.dims = E.g.dims /\ Len(E.f.res) = Len(E.g.res)
             /\ SameFunction(E.f, E.g, Grid(E.f.dims))

TReset == IsEvent("reset")
TraceNext == TReset \/ TMapPoint \/ TMapSet \/ TInverseMap \/ TInverse \/ TCombine \/ TGiven \/ TPred \/ TEq
TraceInit == l = 1
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
