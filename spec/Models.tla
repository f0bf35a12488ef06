------------------------------- MODULE Models -------------------------------
(***************************************************************************)
(* Models of geometry: what the elements of the homogeneous, conformal,    *)
(* Minkowski, plane-based and Euclidean models represent, and the          *)
(* parameters that are read from them.                                     *)
(*                                                                         *)
(* The first part defines how geometric objects are represented; the       *)
(* second how parameters are extracted.  Module ModelLaws has TLC check,   *)
(* over whole grids of geometric objects, that the parameters extracted    *)
(* from the representation of an object are those of the object.           *)
(***************************************************************************)
EXTENDS GA

Model ==
  CASE AlgName \in {"ga1e", "ga2e", "ga3e", "ga4e", "ga5e"} -> "euclidean"
    [] AlgName \in {"ga1h", "ga2h", "ga3h", "ga4h"} -> "homogeneous"
    [] AlgName \in {"ga1p", "ga2p", "ga3p", "ga4p"} -> "plane"
    [] AlgName \in {"ga1m", "ga2m", "ga3m"} -> "minkowski"
    [] AlgName \in {"ga1c", "ga2c", "ga3c"} -> "conformal"
    [] OTHER -> "none"
Rounds == Model \in {"conformal", "minkowski"}
Base == CASE Model \in {"conformal", "minkowski"} -> n - 2
          [] Model \in {"homogeneous", "plane"} -> n - 1
          [] OTHER -> n                          \* dimension of the space that is modelled

\* coordinates are multivectors with a scalar part only
VectorOf(xs) == Sum([i \in 1..Len(xs) |-> Gp(xs[i], E(i))])
SqrOf(xs) == Sum([i \in 1..Len(xs) |-> Gp(xs[i], xs[i])])
Half(A) == Scale(1, 2, A)

Ep == E(IF Model = "homogeneous" THEN n ELSE n - 1)
Ni == IF Model = "minkowski" THEN Add(E(n - 1), E(n)) ELSE E(n)
No == IF Model = "minkowski" THEN Half(Sub(E(n), E(n - 1))) ELSE E(n - 1)

PointOf(xs) ==
  IF Model = "homogeneous" THEN Add(VectorOf(xs), Ep)
  ELSE Sum(<<No, VectorOf(xs), Half(Gp(SqrOf(xs), Ni))>>)

-----------------------------------------------------------------------------
(* Parameters.                                                              *)

\* homogeneous flats
FlatDirection(F) == Lcont(Ep, F)
FlatMoment(F) == Lcont(Ep, Op(Ep, F))
FlatSupportVector(F) == Gp(FlatMoment(F), Inv(FlatDirection(F)))
FlatUnitSupportPoint(F) == Gp(F, Inv(FlatDirection(F)))
Translate(t, F) == Add(F, Op(t, FlatDirection(F)))

\* conformal and Minkowski elements; the parameters of a dual element are those of the element it is the dual of
PrimalFlatDirection(X) == Lcont(Neg(Ni), X)
DualFlatDirection(X) == PrimalFlatDirection(Undual(X))
PrimalFlatLocation(X) == Lcont(Lcont(No, X), Inv(X))
DualFlatLocation(X) == Rcont(Op(No, X), Inv(X))
PrimalRoundDirection(X) == Op(Lcont(Neg(Ni), X), Ni)
DualRoundDirection(X) == PrimalRoundDirection(Undual(X))
RoundWeight(X) == LET a == Lcont(Ni, X) IN Sp(a, a)
RoundLocation(X) == Gp(Gp(Gp(X, Ni), X), Inv(Scale(-2, 1, RoundWeight(X))))
PrimalRoundSizeSqr(X) == Gp(Sp(X, Involute(X)), Inv(RoundWeight(X)))
DualRoundSizeSqr(X) == Neg(PrimalRoundSizeSqr(X))
PrimalTangentDirection(X) == Op(Lcont(Neg(Ni), X), Ni)
DualTangentDirection(X) == PrimalTangentDirection(Undual(X))
TangentLocation(X) == Gp(X, Inv(Lcont(Neg(Ni), X)))

Project(A, B) == Lcont(Lcont(A, Inv(B)), B)
Reject(A, B) == Sub(A, Project(A, B))

ModelOps == {"vec", "vecit", "evec", "evecit", "point", "pointit", "hdir", "hmom", "hsup", "husp", "htrans", "pfdir", "dfdir", "pfloc", "dfloc", "prdir", "drdir",
             "prloc", "drloc", "prsize", "drsize", "ptdir", "dtdir", "ptloc", "dtloc", "project", "reject"}
\* every operand small enough for the products above, and the inverses they take exist
ModelDefined(op, A) ==
  IF op \in {"vec", "vecit", "evec", "evecit", "point", "pointit", "hdir", "hmom", "pfdir", "prdir", "ptdir", "dfdir", "drdir", "dtdir", "htrans"} THEN Size(A[1]) <= 300
  ELSE /\ \A k \in 1..Len(A) : Size(A[k]) <= 60
       /\ CASE op \in {"hsup", "husp"} -> HasInv(FlatDirection(A[1]))
            [] op \in {"pfloc", "dfloc"} -> HasInv(A[1])
            [] op \in {"prloc", "drloc", "prsize", "drsize"} -> ~IsZero(RoundWeight(A[1]))
            [] op \in {"ptloc", "dtloc"} -> HasInv(Lcont(Ni, A[1]))
            [] op \in {"project", "reject"} -> HasInv(A[2])
            [] OTHER -> TRUE
ModelApply(op, A) ==
  CASE op \in {"vec", "vecit", "evec", "evecit"} -> VectorOf(A)
    [] op \in {"point", "pointit"} -> PointOf(A)
    [] op = "hdir" -> FlatDirection(A[1])
    [] op = "hmom" -> FlatMoment(A[1])
    [] op = "hsup" -> FlatSupportVector(A[1])
    [] op = "husp" -> FlatUnitSupportPoint(A[1])
    [] op = "htrans" -> Translate(A[1], A[2])
    [] op = "pfdir" -> PrimalFlatDirection(A[1])
    [] op = "dfdir" -> DualFlatDirection(A[1])
    [] op = "pfloc" -> PrimalFlatLocation(A[1])
    [] op = "dfloc" -> DualFlatLocation(A[1])
    [] op = "prdir" -> PrimalRoundDirection(A[1])
    [] op = "drdir" -> DualRoundDirection(A[1])
    [] op \in {"prloc", "drloc"} -> RoundLocation(A[1])
    [] op = "prsize" -> PrimalRoundSizeSqr(A[1])
    [] op = "drsize" -> DualRoundSizeSqr(A[1])
    [] op = "ptdir" -> PrimalTangentDirection(A[1])
    [] op = "dtdir" -> DualTangentDirection(A[1])
    [] op \in {"ptloc", "dtloc"} -> TangentLocation(A[1])
    [] op = "project" -> Project(A[1], A[2])
    [] op = "reject" -> Reject(A[1], A[2])

-----------------------------------------------------------------------------
(* What an algebra offers by name.                                          *)

VecNames == <<"e1", "e2", "e3", "e4", "e5">>
\* the names of the basis vectors, in order
BasisNames ==
  [i \in 1..n |-> IF i <= Base THEN VecNames[i]
                  ELSE CASE Model = "homogeneous" -> "ep" [] Model = "plane" -> "e0"
                         [] Model = "minkowski" -> IF i = n - 1 THEN "ep" ELSE "em"
                         [] Model = "conformal" -> IF i = n - 1 THEN "no" ELSE "ni"
                         [] OTHER -> VecNames[i]]
OtherNames ==
  CASE Model = "conformal" -> <<"ep", "em", "Ie">> [] Model = "minkowski" -> <<"no", "ni", "Ie">>
    [] Model \in {"euclidean", "homogeneous"} -> <<"Ie">> [] OTHER -> <<>>
ConstNames == BasisNames \o OtherNames \o <<"I">> \o (IF Model = "none" THEN <<>> ELSE <<"_0", "_1", "_2">>)
PositionIn(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x
\* ep squares to 1 and em to -1, no and ni are the null vectors no = (em - ep)/2, ni = ep + em; Ie is the pseudoscalar
\* of the space that is modelled
NamedConstant(name) ==
  IF name \in {BasisNames[i] : i \in 1..n} THEN E(PositionIn(BasisNames, name))
  ELSE CASE name = "ep" -> Sub(Half(Ni), No)
         [] name = "em" -> Add(Half(Ni), No)
         [] name = "no" -> No
         [] name = "ni" -> Ni
         [] name = "Ie" -> Term(2^Base - 1, 1)
         [] name = "I"  -> PS
         [] name = "_0" -> Zero
         [] name = "_1" -> One
         [] name = "_2" -> Num(2)
=============================================================================
