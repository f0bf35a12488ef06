-------------------------------- MODULE Reals --------------------------------
(***************************************************************************)
(* Numbers that calls of the scalar functions return.  They are exact      *)
(* rational numbers where the function has a rational value here, and       *)
(* terms over the real functions otherwise.  Powers, roots, absolute values *)
(* and everything built from them by + - * / stay exact as far as possible. *)
(*                                                                         *)
(* A number is a scalar multivector [d, c]; one that is not known to be     *)
(* rational also has a term t and a sign s:                                *)
(*   term  [o |-> "lit", p, q] | [o |-> name of a function, a] | [o, a, b]  *)
(*   sign  "pos", "nonneg" or "any"                                         *)
(* The harness evaluates terms with the real functions they name.           *)
(***************************************************************************)
EXTENDS GA

RealOps == {"fsqrt", "fcbrt", "fabs", "fexp", "flog", "fcos", "fsin", "ftan", "fcosh", "fsinh", "ftanh", "fneg", "fadd", "fsub", "fmul", "fdiv", "fpow"}

Exact(A) == "t" \notin DOMAIN A
RatOf(A) == ScalarOf(A)                                     \* of exact ones
LitTerm(q) == [o |-> "lit", p |-> q[1], q |-> q[2]]
TermOf(A) == IF Exact(A) THEN LitTerm(RatOf(A)) ELSE A.t
SignOf(A) == IF Exact(A) THEN (IF A.c[0] > 0 THEN "pos" ELSE IF A.c[0] = 0 THEN "nonneg" ELSE "neg") ELSE A.s
Inexact(t, s) == [d |-> 1, c |-> ZeroF, t |-> t, s |-> s]
Positive(A) == SignOf(A) = "pos"
NonNegative(A) == SignOf(A) \in {"pos", "nonneg"}
NonZero(A) == SignOf(A) \in {"pos", "neg"}
IsInt(A) == Exact(A) /\ A.d = 1

RECURSIVE IntPow(_, _)
IntPow(k, e) == IF e = 0 THEN 1 ELSE k * IntPow(k, e - 1)
\* the integer e-th root of k >= 0, or -1
RootOf(k, e) == IF e = 1 THEN k ELSE IF e > 4 THEN -1
                ELSE LET R == {r \in 0..(IF e = 2 THEN 60 ELSE 16) : IntPow(r, e) = k} IN IF R = {} THEN -1 ELSE CHOOSE r \in R : TRUE
\* (p/q)^(a/b) when it is rational: <<numerator, denominator>>, or <<>>
RatPow(x, e) ==
  LET b == e[2]  a == Abs(e[1])
      odd == b % 2 = 1
      rp == RootOf(Abs(x[1]), b)  rq == RootOf(x[2], b)
      small == a <= 5 /\ (a >= 2 => rp <= 40 /\ rq <= 40) /\ (a >= 4 => rp <= 15 /\ rq <= 15)
  IN IF rp < 0 \/ rq < 0 \/ ~small THEN <<>>
     ELSE LET sg == IF x[1] < 0 /\ a % 2 = 1 THEN -1 ELSE 1
              num == IntPow(rp, a)  den == IntPow(rq, a)
          IN IF e[1] >= 0 THEN <<sg * num, den>> ELSE <<sg * den, num>>
OfRat(q) == Ratio(q[1], q[2])
Half2 == <<1, 2>>
Third == <<1, 3>>

\* when the real function is defined; powers of negative numbers have integer exponents
RealDefined(op, A) ==
  /\ \A k \in 1..Len(A) : Exact(A[k]) => IsScalar(A[k]) /\ Size(A[k]) <= 400
  /\ CASE op = "flog" -> Positive(A[1])
       [] op = "fsqrt" -> Positive(A[1]) \/ (~Exact(A[1]) /\ NonNegative(A[1]))    \* (a zero may be a rounding error, which roots enlarge)
       [] op = "fcbrt" -> Exact(A[1]) => NonZero(A[1])
       [] op \in {"fcosh", "fsinh", "fexp"} -> Exact(A[1]) => Abs(A[1].c[0]) <= 6 * A[1].d
       [] op = "fdiv" -> NonZero(A[2])
       [] op = "fpow" -> /\ Exact(A[2]) => Abs(A[2].c[0]) <= 5 * A[2].d
                         /\ \/ Positive(A[1])
                            \/ (NonZero(A[1]) /\ IsInt(A[2]))
                            \/ (SignOf(A[1]) = "any" /\ IsInt(A[2]) /\ A[2].c[0] >= 1)
                            \/ (SignOf(A[1]) = "nonneg" /\ IsInt(A[2]) /\ A[2].c[0] > 0)
       [] OTHER -> TRUE

FunSign(op, x) ==
  CASE op \in {"fexp", "fcosh"} -> "pos"
    [] op = "fabs" -> IF NonZero(x) THEN "pos" ELSE "nonneg"
    [] op \in {"fsqrt", "fcbrt", "fsinh", "ftanh"} -> IF SignOf(x) = "neg" THEN "neg" ELSE SignOf(x)
    [] OTHER -> "any"
SumSign(s, r) == IF s = "pos" /\ r \in {"pos", "nonneg"} THEN "pos" ELSE IF r = "pos" /\ s = "nonneg" THEN "pos"
                 ELSE IF s = "nonneg" /\ r = "nonneg" THEN "nonneg" ELSE IF s = "neg" /\ r = "neg" THEN "neg" ELSE "any"
MulSign(s, r) == IF {s, r} \subseteq {"pos", "neg"} THEN (IF s = r THEN "pos" ELSE "neg") ELSE IF {s, r} \subseteq {"pos", "nonneg"} THEN "nonneg" ELSE "any"
NegSign(s) == CASE s = "pos" -> "neg" [] s = "neg" -> "pos" [] OTHER -> "any"

Fun(op, A) == Inexact([o |-> op, a |-> TermOf(A)], FunSign(op, A))
Bin(op, A, B, s) == Inexact([o |-> op, a |-> TermOf(A), b |-> TermOf(B)], s)

RealApply(op, A) ==
  LET x == A[1]  both == Len(A) = 2 /\ Exact(A[1]) /\ Exact(A[Len(A)])
  IN CASE op = "fneg" -> IF Exact(x) THEN Neg(x) ELSE Inexact([o |-> "fneg", a |-> x.t], NegSign(x.s))
       [] op = "fabs" -> IF Exact(x) THEN OfRat(<<Abs(x.c[0]), x.d>>) ELSE Fun(op, x)
       [] op = "fsqrt" -> IF Exact(x) /\ RatPow(RatOf(x), Half2) # <<>> THEN OfRat(RatPow(RatOf(x), Half2)) ELSE Fun(op, x)
       [] op = "fcbrt" -> IF Exact(x) /\ RatPow(RatOf(x), Third) # <<>> THEN OfRat(RatPow(RatOf(x), Third)) ELSE Fun(op, x)
       [] op \in {"fexp", "fcos", "fcosh"} -> IF Exact(x) /\ IsZero(x) THEN One ELSE Fun(op, x)
       [] op \in {"fsin", "ftan", "fsinh", "ftanh"} -> IF Exact(x) /\ IsZero(x) THEN Zero ELSE Fun(op, x)
       [] op = "flog" -> IF Exact(x) /\ x = One THEN Zero ELSE Fun(op, x)
       [] op = "fadd" -> IF both THEN Add(x, A[2]) ELSE Bin(op, x, A[2], SumSign(SignOf(x), SignOf(A[2])))
       [] op = "fsub" -> IF both THEN Sub(x, A[2]) ELSE Bin(op, x, A[2], SumSign(SignOf(x), NegSign(SignOf(A[2]))))
       [] op = "fmul" -> IF both THEN Gp(x, A[2]) ELSE Bin(op, x, A[2], MulSign(SignOf(x), SignOf(A[2])))
       [] op = "fdiv" -> IF both THEN DivBy(x, RatOf(A[2])) ELSE Bin(op, x, A[2], MulSign(SignOf(x), SignOf(A[2])))
       [] op = "fpow" -> IF both /\ RatPow(RatOf(x), RatOf(A[2])) # <<>> THEN OfRat(RatPow(RatOf(x), RatOf(A[2])))
                         ELSE Bin(op, x, A[2], IF Positive(x) THEN "pos" ELSE IF IsInt(A[2]) /\ A[2].c[0] % 2 = 0 THEN (IF NonZero(x) THEN "pos" ELSE "nonneg") ELSE SignOf(x))
=============================================================================
