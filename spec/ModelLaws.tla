----------------------------- MODULE ModelLaws -----------------------------
(***************************************************************************)
(* The operators of Models represent geometry: over a grid of centres,     *)
(* directions and radii, TLC checks that the parameters extracted from the *)
(* representation of each object are those of the object.  One behaviour   *)
(* per object; the invariants are the laws.                                *)
(***************************************************************************)
EXTENDS Models

CONSTANT MaxC                            \* centres and directions have coordinates -1..MaxC
Coords == -1..MaxC

VARIABLES cc, uu, ww, rho, kk
vars == <<cc, uu, ww, rho, kk>>
Tuples == [1..Base -> Coords]
NumSeq(t) == TLCEval([i \in 1..Base |-> Num(t[i])])
V(t) == TLCEval(VectorOf(NumSeq(t)))
P(t) == TLCEval(PointOf(NumSeq(t)))
DotOf(a, b) == FoldLeft(LAMBDA s, i : s + a[i] * b[i], 0, [i \in 1..Base |-> i])

Init == cc \in Tuples /\ uu \in Tuples /\ ww = uu /\ rho \in {-3, 0, 1, 4} /\ kk = 0
\* the second direction: rotate the coordinates of the first and change one
Next == kk = 0 /\ kk' = 1 /\ ww' = [i \in 1..Base |-> IF i = Base THEN uu[1] + 1 ELSE uu[i + 1]] /\ UNCHANGED <<cc, uu, rho>>
Spec == Init /\ [][Next]_vars

Dirs == TLCEval(IF kk = 0 THEN V(uu) ELSE Op(V(uu), V(ww)))         \* the direction E of the object, grade kk + 1
Proper == kk + 1 <= Base /\ ~IsZero(Dirs)
Prop(A, B) == Parallel(A, B)
FlatOf == TLCEval(IF Model = "homogeneous" THEN Op(P(cc), Dirs) ELSE Op(Op(P(cc), Dirs), Ni))
Rejection == TLCEval(Gp(Op(V(cc), Dirs), Inv(Dirs)))             \* part of cc orthogonal to the direction

HomogeneousLaws ==
  (Model = "homogeneous" /\ Proper) =>
    /\ FlatDirection(FlatOf) = Dirs
    /\ FlatMoment(FlatOf) = Op(V(cc), Dirs)
    /\ FlatSupportVector(FlatOf) = Rejection
    /\ IsZero(Lcont(FlatSupportVector(FlatOf), Dirs))
    /\ FlatUnitSupportPoint(FlatOf) = Add(Rejection, Ep)
    /\ Translate(V(ww), FlatOf) = Op(Add(P(cc), V(ww)), Dirs)
    /\ FlatDirection(Translate(V(ww), FlatOf)) = Dirs

PointLaws ==
  (Rounds) =>
    /\ IsZero(Gp(P(cc), P(cc)))
    /\ Sp(P(cc), P(uu)) = Num(0) \/ Sp(P(cc), P(uu)) = Half(Num(-DotOf([i \in 1..Base |-> cc[i] - uu[i]], [i \in 1..Base |-> cc[i] - uu[i]])))
    /\ Sp(P(cc), Ni) = Num(-1) /\ IsZero(Gp(Ni, Ni)) /\ IsZero(Gp(No, No)) /\ Sp(No, Ni) = Num(-1)
    /\ IsZero(Sp(V(uu), Ni)) /\ IsZero(Sp(V(uu), No)) /\ Sp(V(uu), V(cc)) = Num(DotOf(uu, cc))

\* the round with centre cc, direction Dirs and squared radius rho: what the dual sphere and the flat through cc share
Sphere == TLCEval(Sub(P(cc), Half(Gp(Num(rho), Ni))))            \* dual representation of the whole sphere
RoundOf == TLCEval(Lcont(Sphere, FlatOf))                       \* primal
EuclideanPart(A) == Norm([d |-> A.d, c |-> [b \in Blades |-> IF b \in {Bit(i) : i \in 1..Base} THEN A.c[b] ELSE 0]])

RoundLaws ==
  (Rounds /\ Proper) =>
    /\ Prop(PrimalRoundDirection(RoundOf), Op(Dirs, Ni))
    /\ RoundLocation(RoundOf) = P(cc)
    /\ PrimalRoundSizeSqr(RoundOf) = Num(rho)
    /\ LET D == TLCEval(Dual(RoundOf)) IN
         /\ Prop(DualRoundDirection(D), Op(Dirs, Ni))
         /\ RoundLocation(D) = P(cc)
         /\ DualRoundSizeSqr(D) = Num(rho)
    /\ RoundLocation(Sphere) = P(cc)
    /\ DualRoundSizeSqr(Sphere) = Num(rho)
    /\ Prop(DualRoundDirection(Sphere), Op(Undual(Op(No, Ni)), Ni))

\* a pair of points is the round half way between them
PairLaws ==
  (Rounds /\ cc # uu) =>
    LET X == TLCEval(Op(P(cc), P(uu)))  mid == [i \in 1..Base |-> Half(Num(cc[i] + uu[i]))]  df == [i \in 1..Base |-> cc[i] - uu[i]] IN
      /\ RoundLocation(X) = PointOf(mid)
      /\ Scale(4, 1, PrimalRoundSizeSqr(X)) = Num(DotOf(df, df))
      /\ Prop(PrimalRoundDirection(X), Op(V(df), Ni))
      /\ DualRoundSizeSqr(Dual(X)) = PrimalRoundSizeSqr(X)

FlatLaws ==
  (Rounds /\ Proper) =>
    /\ Prop(PrimalFlatDirection(FlatOf), Op(Dirs, Ni))
    /\ Prop(DualFlatDirection(Dual(FlatOf)), Op(Dirs, Ni))
    /\ LET x == TLCEval(PrimalFlatLocation(FlatOf))  y == TLCEval(DualFlatLocation(Dual(FlatOf))) IN
         /\ Sp(x, Ni) = Num(-1)
         /\ EuclideanPart(x) = Rejection
         /\ Sp(y, Ni) = Num(-1)
         /\ EuclideanPart(y) = Rejection

\* the tangent element with direction Dirs at cc
TangentOf == TLCEval(LET p == P(cc) IN Op(p, Lcont(p, Op(Dirs, Ni))))
TangentLaws ==
  (Rounds /\ Proper) =>
    /\ Prop(PrimalTangentDirection(TangentOf), Op(Dirs, Ni))
    /\ TangentLocation(TangentOf) = P(cc)
    /\ Prop(DualTangentDirection(Dual(TangentOf)), Op(Dirs, Ni))
    /\ LET y == TLCEval(TangentLocation(Dual(TangentOf))) IN Sp(y, Ni) = Num(-1) /\ EuclideanPart(y) = V(cc)

ProjectionLaws ==
  (Model = "euclidean" /\ Proper) =>
    LET v == V(cc)  p == TLCEval(Project(v, Dirs))  r == TLCEval(Reject(v, Dirs)) IN
      /\ Add(p, r) = v
      /\ IsZero(Sp(p, r))
      /\ IsZero(Op(p, Dirs))
      /\ IsZero(Lcont(r, Dirs))
      /\ Project(p, Dirs) = p

\* planes: n + delta e0; composing the reflections in two planes is an isometry
PlaneLaws ==
  (Model = "plane" /\ ~IsZero(V(uu)) /\ ~IsZero(V(ww))) =>
    LET a == TLCEval(Add(V(uu), Gp(Num(rho), E(n))))  b == TLCEval(Add(V(ww), E(n)))  x == TLCEval(Add(V(cc), E(n)))
        once == TLCEval(OddVersor(a, x))  twice == TLCEval(OddVersor(b, once)) IN
      /\ twice = EvenVersor(Gp(b, a), x)
      /\ Sp(once, once) = Sp(x, x) /\ Sp(twice, twice) = Sp(x, x)
      /\ OddVersor(a, once) = x
=============================================================================
