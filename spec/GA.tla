--------------------------------- MODULE GA ---------------------------------
(***************************************************************************)
(* The algebra every other module speaks about: multivectors over a real   *)
(* vector space with an arbitrary symmetric metric, and the definitions of *)
(* the operations GATL provides on them.                                   *)
(*                                                                         *)
(* Nothing here is transcribed from the C++ code.  Products are defined    *)
(* from the Chevalley construction (vector * blade = contraction + wedge,  *)
(* extended by associativity), the other products are grade projections of *)
(* it, duals are contractions by the pseudoscalar, and so on.  The module  *)
(* Laws.tla has TLC check that these definitions satisfy the axioms of a   *)
(* Clifford algebra.                                                       *)
(*                                                                         *)
(* A multivector is a record [d, c]: an exact rational one with common     *)
(* denominator d > 0 and integer numerators c[0 .. 2^n-1], indexed by the  *)
(* bitset of the basis blade.                                              *)
(*                                                                         *)
(* TLC evaluates a constant definition once only if it does not depend on  *)
(* a RECURSIVE operator, so the tables are built with folds.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, FiniteSetsExt, SequencesExt, Functions, TLC

CONSTANT AlgName                       \* which algebra of the catalogue

-----------------------------------------------------------------------------
(* The catalogue of algebras. diag: squares of the basis vectors; off: the *)
(* non-zero products of distinct basis vectors, as <<i, j, value>>.        *)

Rep(k, v) == [i \in 1..k |-> v]
Signed(p, q, r) == [n |-> p + q + r, diag |-> Rep(p, 1) \o Rep(q, -1) \o Rep(r, 0), off |-> {}]
Conformal(d) == [n |-> d + 2, diag |-> Rep(d, 1) \o <<0, 0>>, off |-> {<<d + 1, d + 2, -1>>}]

Catalogue(name) ==
  CASE name = "ga1e" -> Signed(1, 0, 0)
    [] name = "ga2e" -> Signed(2, 0, 0)
    [] name = "ga3e" -> Signed(3, 0, 0)
    [] name = "ga4e" -> Signed(4, 0, 0)
    [] name = "ga5e" -> Signed(5, 0, 0)
    [] name = "ga1h" -> Signed(2, 0, 0)
    [] name = "ga2h" -> Signed(3, 0, 0)
    [] name = "ga3h" -> Signed(4, 0, 0)
    [] name = "ga4h" -> Signed(5, 0, 0)
    [] name = "ga1p" -> Signed(1, 0, 1)
    [] name = "ga2p" -> Signed(2, 0, 1)
    [] name = "ga3p" -> Signed(3, 0, 1)
    [] name = "ga4p" -> Signed(4, 0, 1)
    [] name = "ga1m" -> Signed(2, 1, 0)
    [] name = "ga2m" -> Signed(3, 1, 0)
    [] name = "ga3m" -> Signed(4, 1, 0)
    [] name = "ga1c" -> Conformal(1)
    [] name = "ga2c" -> Conformal(2)
    [] name = "ga3c" -> Conformal(3)
    [] name = "s111" -> Signed(1, 1, 1)
    [] name = "s020" -> Signed(0, 2, 0)
    [] name = "s030" -> Signed(0, 3, 0)
    [] name = "s003" -> Signed(0, 0, 3)
    [] name = "s012" -> Signed(0, 1, 2)
    [] name = "s210" -> Signed(2, 1, 0)
    [] name = "s120" -> Signed(1, 2, 0)
    [] name = "s211" -> Signed(2, 1, 1)
    [] name = "s122" -> Signed(1, 2, 2)
    [] name = "s220" -> Signed(2, 2, 0)
    [] name = "s320" -> Signed(3, 2, 0)
    [] name = "s222" -> Signed(2, 2, 2)
    [] name = "s330" -> Signed(3, 3, 0)
    [] name = "s600" -> Signed(6, 0, 0)
    [] name = "s322" -> Signed(3, 2, 2)
    [] name = "s431" -> Signed(4, 3, 1)
    [] name = "g2"   -> [n |-> 2, diag |-> <<2, -3>>, off |-> {<<1, 2, 1>>}]
    [] name = "g2n"  -> [n |-> 2, diag |-> <<0, 0>>, off |-> {<<1, 2, 3>>}]
    [] name = "g3"   -> [n |-> 3, diag |-> <<2, -1, 3>>, off |-> {<<1, 2, 1>>, <<1, 3, -2>>, <<2, 3, 1>>}]
    [] name = "g3d"  -> [n |-> 3, diag |-> <<2, -3, 5>>, off |-> {}]
    [] name = "g3e"  -> Signed(3, 0, 0)
    [] name = "g3n"  -> [n |-> 3, diag |-> <<0, 1, 0>>, off |-> {<<1, 3, -1>>}]
    [] name = "g3m"  -> Signed(2, 1, 0)
    [] name = "g4c"  -> Conformal(2)
    [] name = "r2a"  -> [n |-> 2, diag |-> <<2, -1>>, off |-> {<<1, 2, 1>>}]
    [] name = "r3b"  -> [n |-> 3, diag |-> <<0, 0, 2>>, off |-> {<<1, 3, 2>>, <<2, 3, 1>>}]
    [] name = "r3c"  -> [n |-> 3, diag |-> <<1, 1, -1>>, off |-> {<<1, 2, -2>>, <<1, 3, 2>>, <<2, 3, 1>>}]
    [] name = "r3d"  -> [n |-> 3, diag |-> <<1, 0, 1>>, off |-> {<<2, 3, -3>>}]
    [] name = "r3e"  -> [n |-> 3, diag |-> <<-1, -1, -1>>, off |-> {<<1, 2, -1>>, <<1, 3, -2>>}]
    [] name = "r4f"  -> [n |-> 4, diag |-> <<0, 0, -1, -1>>, off |-> {<<1, 3, -1>>, <<2, 3, 1>>}]
    [] name = "r3s"  -> [n |-> 3, diag |-> <<1, 4, 1>>, off |-> {<<1, 2, 2>>, <<1, 3, -1>>, <<2, 3, -2>>}]
    [] name = "g4"   -> [n |-> 4, diag |-> <<1, -2, 0, 2>>, off |-> {<<1, 2, 1>>, <<2, 3, -1>>, <<3, 4, 2>>, <<1, 4, -1>>}]
    [] OTHER -> Assert(FALSE, <<"unknown algebra", name>>)

Alg == Catalogue(AlgName)
n == Alg.n                             \* dimension of the vector space
M == 2^n                               \* number of basis blades
Blades == 0..(M - 1)
Vecs == 1..n
Bit(i) == 2^(i - 1)
I == M - 1                             \* the blade of the pseudoscalar

G == TLCEval([p \in Vecs \X Vecs |->
        IF p[1] = p[2] THEN Alg.diag[p[1]]
        ELSE LET s == {t \in Alg.off : {t[1], t[2]} = {p[1], p[2]}}
             IN IF s = {} THEN 0 ELSE (CHOOSE t \in s : TRUE)[3]])

IsOrthogonal == Alg.off = {}
IsEuclidean == Alg.off = {} /\ \A i \in Vecs : Alg.diag[i] = 1

VecsOf(b) == {i \in Vecs : (b & Bit(i)) # 0}
Grade == TLCEval([b \in Blades |-> Cardinality(VecsOf(b))])
Odd(k) == k % 2 = 1
Pow1(k) == IF Odd(k) THEN -1 ELSE 1    \* (-1)^k
Abs(k) == IF k < 0 THEN -k ELSE k
Sgn(k) == IF k < 0 THEN -1 ELSE IF k = 0 THEN 0 ELSE 1
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

-----------------------------------------------------------------------------
(* Sparse integer combinations of blades: sets of <<blade, coefficient>>.   *)

SpAdd(S, T) ==
  LET dom == {p[1] : p \in S} \cup {p[1] : p \in T}
      at(X, b) == LET s == {p \in X : p[1] = b} IN IF s = {} THEN 0 ELSE (CHOOSE p \in s : TRUE)[2]
  IN {p \in {<<b, at(S, b) + at(T, b)>> : b \in dom} : p[2] # 0}
SpScale(k, S) == {p \in {<<q[1], k * q[2]>> : q \in S} : p[2] # 0}

(* e_i \wedge e_b and e_i \rfloor e_b for a basis vector and a basis blade. *)
Below(i, b) == Cardinality({j \in VecsOf(b) : j < i})
VecWedge(i, b) == IF i \in VecsOf(b) THEN {} ELSE {<<b | Bit(i), Pow1(Below(i, b))>>}
VecContract(i, b) ==
  {p \in {<<b ^^ Bit(j), Pow1(Below(j, b)) * G[<<i, j>>]>> : j \in VecsOf(b)} : p[2] # 0}
VecGp(i, b) == SpAdd(VecContract(i, b), VecWedge(i, b))

(* e_a e_b, from e_a = e_i \wedge e_a' = e_i e_a' - e_i \rfloor e_a'        *)
(* (i the lowest vector of a).  The table is built blade by blade, so that  *)
(* each row only uses the rows of smaller blades.                           *)
LowVec(a) == CHOOSE i \in VecsOf(a) : \A j \in VecsOf(a) : i <= j

SpMap(f(_), S) == FoldSet(LAMBDA p, acc : SpAdd(acc, SpScale(p[2], f(p[1]))), {}, S)

GpRow(rows, a) ==            \* rows: the rows of the blades below a
  IF a = 0 THEN TLCEval([b \in Blades |-> {<<b, 1>>}])
  ELSE LET i == LowVec(a)
           a1 == a ^^ Bit(i)
           ctr == VecContract(i, a1)
       IN TLCEval([b \in Blades |->
             SpAdd(SpMap(LAMBDA r : VecGp(i, r), rows[a1 + 1][b]),
                   SpScale(-1, SpMap(LAMBDA r : rows[r + 1][b], ctr)))])

\* row by row, in increasing order of the blade: the rows a row needs come before it
GpTab == FoldLeft(LAMBDA rows, a : Append(rows, GpRow(rows, a - 1)), <<>>, [k \in 1..M |-> k])
                                       \* GpTab[a + 1][b] = e_a e_b
GpBB(a, b) == GpTab[a + 1][b]

OfGrade(S, k) == {p \in S : Grade[p[1]] = k}

(* Regressive product of basis blades: if together they span the space, and *)
(* c is the blade of what they share, b = c b' and a b' = s I give s c (so   *)
(* the pseudoscalar is its unit).                                           *)
\* a, b disjoint: e_a \wedge e_b = ConcatSign(a, b) e_{a|b}, the sign of the permutation
ConcatSign(a, b) == Pow1(Cardinality({p \in VecsOf(a) \X VecsOf(b) : p[1] > p[2]}))
RpBB(a, b) ==
  IF (a | b) # I THEN {}
  ELSE LET c == a & b  b1 == b ^^ c
       IN {<<c, ConcatSign(c, b1) * ConcatSign(a, b1)>>}

Products == {"gp", "op", "rp", "dot", "hip", "lcont", "rcont", "sp"}
BB(p, a, b) ==
  LET r == Grade[a]  s == Grade[b] IN
  CASE p = "gp"    -> GpBB(a, b)
    [] p = "op"    -> OfGrade(GpBB(a, b), r + s)
    [] p = "rp"    -> RpBB(a, b)
    [] p = "dot"   -> OfGrade(GpBB(a, b), Abs(r - s))
    [] p = "hip"   -> IF r = 0 \/ s = 0 THEN {} ELSE OfGrade(GpBB(a, b), Abs(r - s))
    [] p = "lcont" -> IF r <= s THEN OfGrade(GpBB(a, b), s - r) ELSE {}
    [] p = "rcont" -> IF r >= s THEN OfGrade(GpBB(a, b), r - s) ELSE {}
    [] p = "sp"    -> OfGrade(GpBB(a, b), 0)
Tab(p) == TLCEval([a \in Blades |-> TLCEval([b \in Blades |-> BB(p, a, b)])])
TabGp == Tab("gp")   TabOp == Tab("op")     TabRp == Tab("rp")       TabDot == Tab("dot")
TabHip == Tab("hip") TabLc == Tab("lcont")  TabRc == Tab("rcont")    TabSp == Tab("sp")
TabOf(p) == CASE p = "gp" -> TabGp [] p = "op" -> TabOp [] p = "rp" -> TabRp [] p = "dot" -> TabDot
              [] p = "hip" -> TabHip [] p = "lcont" -> TabLc [] p = "rcont" -> TabRc [] p = "sp" -> TabSp

-----------------------------------------------------------------------------
(* Multivectors.                                                            *)

Norm(A0) ==
  LET A == TLCEval(A0) IN
  LET g == FoldSet(LAMBDA b, acc : Gcd(Abs(A.c[b]), acc), A.d, Blades)
  IN IF g <= 1 THEN A ELSE [d |-> A.d \div g, c |-> TLCEval([b \in Blades |-> A.c[b] \div g])]
Mv(f) == [d |-> 1, c |-> TLCEval(f)]
ZeroF == TLCEval([b \in Blades |-> 0])
Zero == Mv(ZeroF)
Term(b, k) == Mv([ZeroF EXCEPT ![b] = k])
Num(k) == Term(0, k)
Ratio(p, q) == Norm([d |-> Abs(q), c |-> [ZeroF EXCEPT ![0] = Sgn(q) * p]])
One == Num(1)
E(i) == Term(Bit(i), 1)
PS == Term(I, 1)
OfSparse(S) == Mv([b \in Blades |-> LET s == {p \in S : p[1] = b} IN IF s = {} THEN 0 ELSE (CHOOSE p \in s : TRUE)[2]])
Supp(A) == {b \in Blades : A.c[b] # 0}
IsZero(A) == \A b \in Blades : A.c[b] = 0
MaxCoef(A) == FoldSet(LAMBDA b, acc : MaxOf(acc, Abs(A.c[b])), 0, Blades)
Size(A) == MaxOf(A.d, MaxCoef(A))      \* how large its integers are

Scale(p, q, A) == Norm([d |-> A.d * Abs(q), c |-> TLCEval([b \in Blades |-> Sgn(q) * p * A.c[b]])])
Neg(A) == [d |-> A.d, c |-> TLCEval([b \in Blades |-> -A.c[b]])]
Add(A, B) ==
  IF A.d = B.d THEN Norm([d |-> A.d, c |-> TLCEval([b \in Blades |-> A.c[b] + B.c[b]])])
  ELSE LET g == Gcd(A.d, B.d)  ka == B.d \div g  kb == A.d \div g
       IN Norm([d |-> A.d * ka, c |-> TLCEval([b \in Blades |-> ka * A.c[b] + kb * B.c[b]])])
Sub(A, B) == Add(A, Neg(B))
Sum(s) == FoldSeq(LAMBDA x, acc : Add(acc, x), Zero, s)

Bilinear(T, A, B) ==
  LET sa == Supp(A)  sb == Supp(B)
      step(acc, a, b) ==
        LET k == A.c[a] * B.c[b]
        IN FoldSet(LAMBDA p, ac : [ac EXCEPT ![p[1]] = @ + k * p[2]], acc, T[a][b])
      row(acc, a) == FoldSet(LAMBDA b, ac : step(ac, a, b), acc, sb)
      f == FoldSet(LAMBDA a, ac : row(ac, a), ZeroF, sa)
  IN Norm([d |-> A.d * B.d, c |-> TLCEval(f)])

Gp(A, B) == Bilinear(TabGp, A, B)
Op(A, B) == Bilinear(TabOp, A, B)
Rp(A, B) == Bilinear(TabRp, A, B)
Dot(A, B) == Bilinear(TabDot, A, B)
Hip(A, B) == Bilinear(TabHip, A, B)
Lcont(A, B) == Bilinear(TabLc, A, B)
Rcont(A, B) == Bilinear(TabRc, A, B)
Sp(A, B) == Bilinear(TabSp, A, B)
Product(p, A, B) == Bilinear(TabOf(p), A, B)

ByGrade(f(_), A) == [d |-> A.d, c |-> TLCEval([b \in Blades |-> f(Grade[b]) * A.c[b]])]
Involute(A) == ByGrade(LAMBDA k : Pow1(k), A)
Rev(A) == ByGrade(LAMBDA k : Pow1((k * (k - 1)) \div 2), A)
Conjugate(A) == ByGrade(LAMBDA k : Pow1((k * (k + 1)) \div 2), A)
TakeGrade(A, k) == Norm([d |-> A.d, c |-> TLCEval([b \in Blades |-> IF Grade[b] = k THEN A.c[b] ELSE 0])])
GradesOf(A) == {Grade[b] : b \in Supp(A)}
LargestGrade(A) == IF IsZero(A) THEN -2 ELSE Max(GradesOf(A))     \* -2: undetermined
GradeOf(A) == IF IsZero(A) THEN -2 ELSE IF Cardinality(GradesOf(A)) = 1 THEN Max(GradesOf(A)) ELSE -1
TakeLargest(A) == IF IsZero(A) THEN A ELSE TakeGrade(A, Max(GradesOf(A)))

\* scalars: multivectors with support {0}; value p/q is <<c[0], d>>
IsScalar(A) == Supp(A) \subseteq {0}
ScalarOf(A) == <<A.c[0], A.d>>
DivBy(A, s) == Scale(s[2], s[1], A)            \* A / s, for s = <<p, q>>, p # 0

NormSqr(A) == Sp(A, Rev(A))
HasInv(A) == ~IsZero(NormSqr(A))
Inv(A) == DivBy(Rev(A), ScalarOf(NormSqr(A)))     \* the versor inverse
Igp(A, B) == Gp(A, Inv(B))

Dual(A) == Lcont(A, Inv(PS))
Undual(A) == Lcont(A, PS)
DualBy(A, P) == Lcont(A, Inv(P))
UndualBy(A, P) == Lcont(A, P)

Cp(A, B) == Scale(1, 2, Sub(Gp(A, B), Gp(B, A)))
Dp(A, B) == TakeLargest(Gp(A, B))

EvenVersor(V, A) == Gp(Gp(V, A), Inv(V))
OddVersor(V, A) == Gp(Gp(V, Involute(A)), Inv(V))
Rotor(R, A) == Gp(Gp(R, A), Rev(R))

RECURSIVE ISqrt(_, _)
ISqrt(k, r) == IF r * r >= k THEN r ELSE ISqrt(k, r + 1)
IsSquare(k) == k >= 0 /\ k <= 1000000 /\ LET r == ISqrt(k, 0) IN r * r = k
IsRatSquare(s) == IsSquare(s[1]) /\ IsSquare(s[2])
RatSqrt(s) == <<ISqrt(s[1], 0), ISqrt(s[2], 0)>>

-----------------------------------------------------------------------------
(* Blades as subspaces (used for meet and join).                            *)

\* outer product of a sequence of vectors
Span(vs) == FoldSeq(LAMBDA v, acc : Op(acc, v), One, vs)
\* equal up to a non-zero factor
Parallel(A, B) ==
  /\ IsZero(A) = IsZero(B)
  /\ \A a, b \in Blades : A.c[a] * B.c[b] = A.c[b] * B.c[a]

(* Meet and join (Euclidean metric).  The join of A and B is A wedged with   *)
(* what is left of B when as few directions as possible are contracted out  *)
(* of it: with the smallest k such that some e_K \rfloor B, K of grade k,    *)
(* still is independent of A.  Everything is defined up to a factor.         *)
Primitive(A) == LET g == FoldSet(LAMBDA b, acc : Gcd(Abs(A.c[b]), acc), 0, Blades)
                IN IF g <= 1 THEN A ELSE [d |-> 1, c |-> TLCEval([b \in Blades |-> A.c[b] \div g])]
JoinOf(A, B) ==
  LET cand(k) == {K \in Blades : Grade[K] = k /\ ~IsZero(Op(A, Lcont(Term(K, 1), B)))}
      k == CHOOSE k \in 0..n : cand(k) # {} /\ \A j \in 0..(k - 1) : cand(j) = {}
  IN Primitive(Op(A, Lcont(Term(CHOOSE K \in cand(k) : TRUE, 1), B)))
MeetOf(A, B) == LET J == JoinOf(A, B) IN Primitive(Lcont(Lcont(B, Rev(J)), A))
\* blades in general: a non-zero multivector of a single grade
OneGrade(A) == ~IsZero(A) /\ Cardinality(GradesOf(A)) = 1
Inside(A, B) == Gp(A, B) = Lcont(A, B)           \* the subspace of the blade A lies in that of B
\* what makes J and T the join and the meet of A and B
MeetJoinLaws(A, B, T, J) ==
  /\ OneGrade(T) /\ OneGrade(J)
  /\ Inside(T, A) /\ Inside(T, B) /\ Inside(A, J) /\ Inside(B, J)
  /\ LargestGrade(T) + LargestGrade(J) = LargestGrade(A) + LargestGrade(B)
\* the plunge: the least blade that meets both at right angles
PlungeOf(A, B) == LET J == JoinOf(A, B) IN Op(Primitive(Lcont(B, Rev(J))), Primitive(Lcont(A, Rev(J))))
\* it holds everything in the join that is orthogonal to A, or to B, and nothing more
PlungeLaws(A, B, P) ==
  LET J == JoinOf(A, B)  a == Primitive(Lcont(A, Rev(J)))  b == Primitive(Lcont(B, Rev(J)))
  IN OneGrade(P) /\ Inside(P, J) /\ Inside(a, P) /\ Inside(b, P) /\ LargestGrade(P) = LargestGrade(a) + LargestGrade(b)
=============================================================================
