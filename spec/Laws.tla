-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The definitions of module GA satisfy the axioms of a Clifford algebra   *)
(* and the identities that make its operations what their names say.  All  *)
(* products are multilinear, so it is enough to check the laws on triples  *)
(* of basis blades: one state for each, the laws are the invariants.  Laws *)
(* that are not linear (inverses, versors) are checked on vectors with     *)
(* coordinates -1..MaxC and products of them.                              *)
(***************************************************************************)
EXTENDS GA

CONSTANT MaxC
VARIABLES aa, bb, cc, uu, vv
vars == <<aa, bb, cc, uu, vv>>
Tuples == [1..n -> -1..MaxC]
Init == /\ aa = 0 /\ bb = 0 /\ cc = 0 /\ uu = 1 /\ vv = 1
\* first the triples of blades, then the pairs of vectors
Code(t) == FoldLeft(LAMBDA s, i : s * (MaxC + 2) + t[i] + 1, 0, [i \in 1..n |-> i])
NT == (MaxC + 2)^n
Coord(k, i) == ((k \div (MaxC + 2)^(i - 1)) % (MaxC + 2)) - 1
Next == \/ /\ uu = 1 /\ vv = 1
           /\ \E x, y, z \in Blades : aa = 0 /\ bb = 0 /\ cc = 0 /\ aa' = x /\ bb' = y /\ cc' = z
           /\ UNCHANGED <<uu, vv>>
        \/ /\ aa = 0 /\ bb = 0 /\ cc = 0 /\ uu = 1 /\ vv = 1
           /\ \E x, y \in 0..(NT - 1) : uu' = x /\ vv' = y
           /\ UNCHANGED <<aa, bb, cc>>
Spec == Init /\ [][Next]_vars

A == TLCEval(Term(aa, 1))  B == TLCEval(Term(bb, 1))  C == TLCEval(Term(cc, 1))
Ga == Grade[aa]  Gb == Grade[bb]  Gc == Grade[cc]
VecAt(k) == Mv([b \in Blades |-> IF Grade[b] = 1 THEN Coord(k, CHOOSE i \in Vecs : Bit(i) = b) ELSE 0])
V1 == TLCEval(VecAt(uu))  V2 == TLCEval(VecAt(vv))
Blade == uu = 1 /\ vv = 1                            \* a state of the first kind
Metric(i, j) == Num(2 * G[<<i, j>>])

\* C01: the geometric product
CliffordLaws ==
  Blade =>
    /\ Gp(Gp(A, B), C) = Gp(A, Gp(B, C))
    /\ Gp(One, A) = A /\ Gp(A, One) = A
    /\ (Ga = 1 /\ Gb = 1) => \A i, j \in Vecs : (aa = Bit(i) /\ bb = Bit(j)) => Add(Gp(A, B), Gp(B, A)) = Metric(i, j)
    \* the algebra has dimension 2^n: the blade of a set of orthogonal vectors is their product
    /\ IsOrthogonal => FoldLeft(LAMBDA acc, i : IF i \in VecsOf(aa) THEN Gp(acc, E(i)) ELSE acc, One, [i \in 1..n |-> i]) = A
    /\ \A b \in Supp(Gp(A, B)) : Grade[b] <= Ga + Gb /\ (Grade[b] + Ga + Gb) % 2 = 0

\* C02: the products that do not depend on the metric
MetricFreeLaws ==
  Blade =>
    /\ Op(Op(A, B), C) = Op(A, Op(B, C))
    /\ Op(A, B) = Scale(Pow1(Ga * Gb), 1, Op(B, A))
    /\ Op(One, A) = A
    /\ (aa & bb) # 0 => IsZero(Op(A, B))
    /\ Rp(Rp(A, B), C) = Rp(A, Rp(B, C))
    /\ Rp(A, B) = Scale(Pow1((n - Ga) * (n - Gb)), 1, Rp(B, A))
    /\ Rp(PS, A) = A /\ Rp(A, PS) = A
    /\ (Ga + Gb = n) => Gp(Rp(A, B), PS) = Op(A, B)

\* C03: the products that are parts of the geometric product
ContractionLaws ==
  Blade =>
    /\ (Ga = 1) => Gp(A, B) = Add(Lcont(A, B), Op(A, B)) /\ Gp(B, A) = Add(Rcont(B, A), Op(B, A))
    /\ Lcont(Op(A, B), C) = Lcont(A, Lcont(B, C))
    /\ Rcont(A, Op(B, C)) = Rcont(Rcont(A, B), C)
    /\ Sp(Op(A, B), C) = Sp(A, Lcont(B, C))
    /\ Rcont(A, B) = Rev(Lcont(Rev(B), Rev(A)))
    /\ Sp(A, B) = Sp(B, A)
    /\ Dot(A, B) = (IF Ga <= Gb THEN Lcont(A, B) ELSE Rcont(A, B))
    /\ Hip(A, B) = (IF Ga = 0 \/ Gb = 0 THEN Zero ELSE Dot(A, B))
    /\ (Ga = 1) => Lcont(A, Gp(B, C)) = Add(Gp(Lcont(A, B), C), Gp(Involute(B), Lcont(A, C)))

\* C06: the conjugations
InvolutionLaws ==
  Blade =>
    /\ Rev(Gp(A, B)) = Gp(Rev(B), Rev(A)) /\ Rev(Op(A, B)) = Op(Rev(B), Rev(A))
    /\ Involute(Gp(A, B)) = Gp(Involute(A), Involute(B))
    /\ Conjugate(Gp(A, B)) = Gp(Conjugate(B), Conjugate(A))
    /\ Conjugate(A) = Rev(Involute(A)) /\ Rev(Rev(A)) = A /\ Involute(Involute(A)) = A

\* C09: norms and inverses, of versors
NormLaws ==
  LET R == TLCEval(Gp(V1, V2)) IN
    /\ Gp(V1, V1) = NormSqr(V1) /\ IsScalar(Gp(V1, V1))
    /\ Gp(R, Rev(R)) = NormSqr(R) /\ NormSqr(R) = Gp(NormSqr(V1), NormSqr(V2))
    /\ HasInv(V1) => Gp(V1, Inv(V1)) = One /\ Gp(Inv(V1), V1) = One
    /\ HasInv(R) => Gp(R, Inv(R)) = One /\ Gp(Igp(V1, R), R) = V1

\* C11: versors act on the algebra
SandwichLaws ==
  LET R == TLCEval(Gp(V1, V2)) W == TLCEval(Op(E(1), V2)) X == TLCEval(Add(E(n), V2)) IN
    /\ HasInv(R) => /\ GradesOf(EvenVersor(R, X)) \subseteq {1} /\ Sp(EvenVersor(R, X), EvenVersor(R, V1)) = Sp(X, V1)
                    /\ EvenVersor(R, Op(X, W)) = Op(EvenVersor(R, X), EvenVersor(R, W))
                    /\ EvenVersor(R, Gp(X, W)) = Gp(EvenVersor(R, X), EvenVersor(R, W))
                    /\ EvenVersor(R, X) = OddVersor(V1, OddVersor(V2, X))
    /\ HasInv(V1) => OddVersor(V1, V1) = Neg(V1) /\ OddVersor(V1, Gp(X, W)) = Gp(OddVersor(V1, X), OddVersor(V1, W))

\* C10: each of dual and undual undoes the other, and both turn outer products into contractions
DualLaws ==
  (Blade /\ HasInv(PS)) => /\ Dual(Undual(A)) = A /\ Undual(Dual(A)) = A /\ Dual(PS) = One
                             /\ Dual(Op(A, B)) = Lcont(A, Dual(B)) /\ Dual(Lcont(A, B)) = Op(A, Dual(B))

\* C12: the commutator is the product of a Lie algebra, in which bivectors keep grades; selecting grades splits a multivector
CommutatorLaws ==
  /\ Blade => /\ Cp(A, B) = Neg(Cp(B, A))
              /\ (Ga = 2) => GradesOf(Cp(A, B)) \subseteq {Gb}
              /\ Add(Cp(A, Cp(B, C)), Add(Cp(B, Cp(C, A)), Cp(C, Cp(A, B)))) = Zero
  /\ LET S == TLCEval(Add(A, Add(B, C))) IN FoldLeft(LAMBDA acc, k : Add(acc, TakeGrade(S, k - 1)), Zero, [k \in 1..(n + 1) |-> k]) = S
=============================================================================
