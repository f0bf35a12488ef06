------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* What every API call returns (Apply) and when it is defined (Defined).   *)
(***************************************************************************)
EXTENDS Models, Reals

Limit == 3000                            \* largest integer in a register
SmallEnough(A) == Size(A) <= 60          \* operands of calls that multiply more than twice

\* grade() and largest_grade() answer -1 for mixed grades and -2 for undetermined (zero)
GradeNum(k) == Num(k)

\* Containers with room for the grades p[1]..p[2] (C15). A copy that would lose something is refused; tolerances are in quarters.
InRoom(A, p) == \A b \in Supp(A) : Grade[b] \in p[1]..p[2]
Refused(A, p) == \E b \in Supp(A) : Grade[b] \notin p[1]..p[2] /\ (Len(p) > 2 => 4 * Abs(A.c[b]) > p[3] * A.d)

\* The grades of what exceeds a tolerance, in quarters (C12).
Over(A, t) == {Grade[b] : b \in {x \in Supp(A) : 4 * Abs(A.c[x]) > t * A.d}}

Sorted8(S, k) == LET sq == SetToSortSeq(S, LAMBDA x, y : x < y) IN IF k = 0 \/ k >= Len(sq) THEN sq ELSE SubSeq(sq, 1, k)

\* Values that are not rational: real combinations of multivectors, given as a sequence of terms [k, q, m], whose
\* value is the product of the real numbers k named, each a function of the rational q, times the multivector m.
\* "C" is the power series  sum_j q^j / (2j)!,  "S" is  sum_j q^j / (2j+1)!.  The harness evaluates them.
Weighted(ts) == [d |-> 1, c |-> ZeroF, w |-> ts]
Wt(k, q, m) == [k |-> k, q |-> q, m |-> m]
\* multiples of multivectors by real numbers
RealWt(x, A) == [k |-> <<>>, q |-> <<1, 1>>, t |-> TermOf(x), m |-> A]
Plain(A) == {"w", "t"} \cap DOMAIN A = {}
SquareOf(B) == ScalarOf(Gp(B, B))
SquaresToScalar(B) == IsScalar(Gp(B, B))
\* sum_k B^k / k! = C(B B) + S(B B) B  when B squares to a number
ExpVal(B) == LET q == SquareOf(B) IN Weighted(<<Wt(<<"C">>, q, One), Wt(<<"S">>, q, B)>>)
\* exp(B) X ~exp(B)
ExpRot(B, X) ==
  LET q == SquareOf(B)  r == Rev(B)
  IN Weighted(<<Wt(<<"C", "C">>, q, X), Wt(<<"C", "S">>, q, Add(Gp(B, X), Gp(X, r))), Wt(<<"S", "S">>, q, Gp(Gp(B, X), r))>>)

Defined(op, A, p) ==
  CASE op \in RealOps -> RealDefined(op, A)
    [] op \in ModelOps -> ModelDefined(op, A)
    [] op \in {"inv", "unit"}  -> SmallEnough(A[1]) /\ HasInv(A[1]) /\
                                  (op = "unit" => LET q == ScalarOf(NormSqr(A[1])) IN IsRatSquare(<<Abs(q[1]), q[2]>>))
    [] op \in {"rnorm"}        -> SmallEnough(A[1]) /\ LET q == ScalarOf(NormSqr(A[1])) IN IsRatSquare(q)
    [] op = "igp"              -> SmallEnough(A[1]) /\ SmallEnough(A[2]) /\ HasInv(A[2])
    [] op \in {"evenv", "oddv"} -> SmallEnough(A[1]) /\ SmallEnough(A[2]) /\ HasInv(A[1])
    [] op = "rotor"            -> SmallEnough(A[1]) /\ SmallEnough(A[2])
    [] op = "sdiv"             -> SmallEnough(A[1]) /\ ~IsZero(A[2])
    [] op = "dual"             -> SmallEnough(A[1]) /\ HasInv(PS)
    [] op = "dualby"           -> SmallEnough(A[1]) /\ SmallEnough(A[2]) /\ HasInv(A[2])
    [] op \in {"copyF", "scopyF"} -> InRoom(A[1], p)
    [] op \in {"mj", "fmj", "fjoin", "plunge", "fplunge"} -> OneGrade(A[1]) /\ OneGrade(A[2]) /\ IsEuclidean
    [] op \in {"isnullT", "isunitT"} -> SmallEnough(A[1])
    [] op = "dpT" -> SmallEnough(A[1]) /\ SmallEnough(A[2])
    [] op = "exp" -> (SmallEnough(A[1]) \/ (A[1].d <= 10000 /\ MaxCoef(A[1]) <= 9)) /\ SquaresToScalar(A[1])
    \* (large hyperbolic functions would cancel, and floating point could not tell)
    [] op = "expinv" -> SmallEnough(A[1]) /\ SquaresToScalar(A[1]) /\ SquareOf(A[1])[1] <= 9 * SquareOf(A[1])[2]
    [] op \in {"exprot", "expeven"} -> /\ SmallEnough(A[1]) /\ SmallEnough(A[2]) /\ SquaresToScalar(A[1]) /\ Rev(A[1]) = Neg(A[1])
                                      /\ SquareOf(A[1])[1] <= 9 * SquareOf(A[1])[2]
    [] op = "eachvec" -> ~IsZero(A[1])
    [] op = "fscale" -> Plain(A[2]) /\ (Exact(A[1]) => IsScalar(A[1]))
    [] op = "fmix" -> Plain(A[2]) /\ Plain(A[4]) /\ (Exact(A[1]) => IsScalar(A[1])) /\ (Exact(A[3]) => IsScalar(A[3]))
    [] OTHER -> TRUE

Apply(op, A, p) ==
  CASE op \in RealOps -> RealApply(op, A)
    [] op \in ModelOps -> ModelApply(op, A)
    [] op \in Products -> Product(op, A[1], A[2])
    [] op = "add"        -> Add(A[1], A[2])
    [] op = "sub"        -> Sub(A[1], A[2])
    [] op = "neg"        -> Neg(A[1])
    [] op = "pos"        -> A[1]
    [] op = "copy"       -> A[1]
    [] op = "text"       -> A[1]                    \* what the text denotes; p names the basis vectors
    [] op = "fscale"     -> Weighted(<<RealWt(A[1], A[2])>>)
    [] op = "fmix"       -> Weighted(<<RealWt(A[1], A[2]), RealWt(A[3], A[4])>>)
    [] op = "radd"       -> Add(A[1], A[2])         \* A[1] is a number
    [] op = "rsub"       -> Sub(A[1], A[2])
    [] op = "rmul"       -> Gp(A[1], A[2])
    [] op = "smul"       -> Gp(A[1], A[2])          \* A[2] is a number
    [] op = "sdiv"       -> DivBy(A[1], ScalarOf(A[2]))
    [] op = "reverse"    -> Rev(A[1])
    [] op = "involute"   -> Involute(A[1])
    [] op = "conjugate"  -> Conjugate(A[1])
    [] op = "takegrade"  -> TakeGrade(A[1], p[1])
    [] op = "takelargest" -> TakeLargest(A[1])
    [] op = "grade"      -> GradeNum(GradeOf(A[1]))
    [] op = "largestgrade" -> GradeNum(LargestGrade(A[1]))
    [] op = "cp"         -> Cp(A[1], A[2])
    [] op = "dp"         -> Dp(A[1], A[2])
    [] op = "dual"       -> Dual(A[1])
    [] op = "undual"     -> Undual(A[1])
    [] op = "dualby"     -> DualBy(A[1], A[2])
    [] op = "undualby"   -> UndualBy(A[1], A[2])
    [] op = "normsqr"    -> NormSqr(A[1])
    [] op = "rnorm"      -> LET q == RatSqrt(ScalarOf(NormSqr(A[1]))) IN Ratio(q[1], q[2])
    [] op = "inv"        -> Inv(A[1])
    [] op = "igp"        -> Igp(A[1], A[2])
    [] op = "unit"       -> LET s == ScalarOf(NormSqr(A[1]))  q == RatSqrt(<<Abs(s[1]), s[2]>>) IN DivBy(A[1], q)
    [] op = "isnull"     -> Num(IF IsZero(NormSqr(A[1])) THEN 1 ELSE 0)
    [] op = "isunit"     -> Num(IF NormSqr(A[1]) \in {One, Num(-1)} THEN 1 ELSE 0)
    [] op = "iszero"     -> Num(IF IsZero(A[1]) THEN 1 ELSE 0)
    [] op = "gradeT"     -> LET g == Over(A[1], p[1]) IN GradeNum(IF g = {} THEN -2 ELSE IF Cardinality(g) = 1 THEN Max(g) ELSE -1)
    [] op = "largestT"   -> LET g == Over(A[1], p[1]) IN GradeNum(IF g = {} THEN -2 ELSE Max(g))
    [] op = "takelargestT" -> LET g == Over(A[1], p[1]) IN IF g = {} THEN Zero ELSE TakeGrade(A[1], Max(g))
    [] op = "dpT"        -> LET P == TLCEval(Gp(A[1], A[2]))  g == Over(P, p[1]) IN IF g = {} THEN Zero ELSE TakeGrade(P, Max(g))
    [] op = "iszeroT"    -> Num(IF Over(A[1], p[1]) = {} THEN 1 ELSE 0)
    [] op = "isnullT"    -> Num(IF Over(NormSqr(A[1]), p[1]) = {} THEN 1 ELSE 0)
    [] op = "isunitT"    -> LET q == NormSqr(A[1]) IN Num(IF Over(Sub([q EXCEPT !.c[0] = Abs(@)], One), p[1]) = {} THEN 1 ELSE 0)
    [] op = "evenv"      -> EvenVersor(A[1], A[2])
    [] op = "oddv"       -> OddVersor(A[1], A[2])
    [] op = "rotor"      -> Rotor(A[1], A[2])
    [] op = "konst"      -> NamedConstant(p[1])     \* a constant of the algebra
    [] op = "econst"     -> E(p[1])                 \* the basis vector of an index, known at compile time
    [] op = "erun"       -> E(A[1].c[0])            \* the same, at run time
    [] op = "vecname"    -> Num(1)                  \* whether p[1] is the name of the basis vector p[2]: always
    [] op = "dims"       -> Num(n)
    [] op = "allvecs"    -> Num(M - 1)
    [] op = "pseudo"     -> PS
    \* the pair of meet and join; its parts (of A[2] and A[3]), up to a factor, and their consistency
    [] op \in {"mj", "fmj"} -> IF MeetJoinLaws(A[1], A[2], MeetOf(A[1], A[2]), JoinOf(A[1], A[2])) THEN Zero ELSE Assert(FALSE, <<"not the meet and join", A>>)
    [] op = "meetof"     -> MeetOf(A[2], A[3])
    [] op = "joinof"     -> JoinOf(A[2], A[3])
    [] op = "mjcons"     -> Zero                    \* (A >| M^-1) ^ B - J
    [] op = "fjoin"      -> JoinOf(A[1], A[2])
    [] op \in {"plunge", "fplunge"} -> LET P == PlungeOf(A[1], A[2]) IN IF PlungeLaws(A[1], A[2], P) THEN Primitive(P) ELSE Assert(FALSE, <<"not the plunge", A>>)
    [] op = "exp"        -> ExpVal(A[1])
    [] op = "expinv"     -> One                     \* exp(B) exp(-B)
    [] op \in {"exprot", "expeven"} -> ExpRot(A[1], A[2])
    [] op \in {"copyF", "tcopyF", "copyD", "tcopyD", "copyX", "scopyF", "stcopyF", "native"} -> A[1]
    [] op \in {"refuseF", "srefuseF"} -> Num(IF Refused(A[1], p) THEN 1 ELSE 0)
    [] op = "visits"     -> Num(p[1])               \* how many components a visitor sees when it never stops
    [] op = "visitstop"  -> Num(p[1])               \* ... when it stops after p[1] of them
    [] op = "eachvec"    ->                         \* the basis vectors of a blade, in order (the first p[1] if p[1] > 0), as digits in base 8
       LET vs == Sorted8(VecsOf(CHOOSE b \in Supp(A[1]) : TRUE), p[1]) IN Num(FoldLeft(LAMBDA acc, i : acc * 8 + i, 0, vs))
=============================================================================
