------------------------------ MODULE Profiles ------------------------------
(***************************************************************************)
(* The programs of a session: for each profile, Program(profile, s) builds *)
(* the s-th program: its inputs, with the representation each is given in, *)
(* and the API calls it makes.                                             *)
(*                                                                         *)
(* Representation of an input:                                             *)
(*   "V"  sum of terms, blades fixed at compile time, coefficients at run time *)
(*   "N"  the same, written with the named basis vectors of the algebra     *)
(*   "K"  sum of terms, blades and coefficients fixed at compile time       *)
(*   "Q"  the same, with fractions: all coefficients over one denominator   *)
(*   "D"  one term, blade and coefficient known at run time only            *)
(*   "U"  one unit blade known at run time only                             *)
(*   "F"  one stored coefficient for every blade of a range of grades       *)
(*   "X"  a "V" sum plus one "D" term                                       *)
(*   "DD" two "D" terms                                                     *)
(*   "Y"  a "V" sum whose last coefficient is negligible (far below the      *)
(*        tolerance of the queries), hence zero for the specification       *)
(*   "W"  the same as "V", all coefficients divided by a (large) number       *)
(*   "B"  a blade spanned by vectors, one stored coefficient per blade of its *)
(*        grade; "BV" the same, as a sum of terms ("V")                     *)
(*   "BS" as "BV", but a thousandth of it: for calls that speak of the        *)
(*        subspace only                                                     *)
(*   "S"  a native floating point number; "I" a native integer              *)
(***************************************************************************)
EXTENDS Calls

CONSTANT Seed

\* Metric operations take blades known at run time only where the metric is diagonal (and not written as a matrix).
TakesRuntime == IsOrthogonal /\ AlgName \notin {"g3d", "g3e", "g3m"}

\* Pseudo-random numbers in 0..32748, a pure function of (Seed, s, k).
Rnd(s, k) ==
  LET P == 32749
      x0 == (s * 613 + k * 7877 + Seed * 331 + n * 1009) % P
      x1 == (x0 * x0 + 12345 + k) % P
      x2 == (x1 * 25173 + s) % P
  IN (x2 * x2 + 3 * x1 + 7) % P
Pick(seq, s, k) == seq[1 + (Rnd(s, k) % Len(seq))]
Cyc(seq, s) == seq[1 + (s % Len(seq))]                \* cycles through seq as s grows
CycD(seq, s, by) == seq[1 + ((s \div by) % Len(seq))]

BladesOf(gs) == {b \in Blades : Grade[b] \in gs}
\* cnt distinct blades out of S, in increasing order
PickBlades(s, k, cnt, S) ==
  LET key == [b \in S |-> Rnd(s, k + 37 * b) * 1024 + b]
      byKey == SetToSortSeq(S, LAMBDA x, y : key[x] < key[y])
      chosen == {byKey[j] : j \in 1..MinOf(cnt, Len(byKey))}
  IN SetToSortSeq(chosen, LAMBDA x, y : x < y)
SomeBlade(s, k, S) == PickBlades(s, k, 1, S)[1]

NoZero(k) == IF k = 0 THEN 5 ELSE k
SmallInt(s, k) == NoZero((Rnd(s, k) % 9) - 4)         \* in -4..5 without 0

\* pool: where the run-time coefficients come from (see Coef)
In(rep, bl, kc, g0, g1, al) == [rep |-> rep, bl |-> bl, kc |-> kc, g0 |-> g0, g1 |-> g1, al |-> al, pool |-> "int"]
Pool(x, p) == [x EXCEPT !.pool = p]
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
All == 0..n
\* input builders: k separates the random choices of the inputs of a program
VIn(s, k, cnt, gs) == In("V", PickBlades(s, k, cnt, BladesOf(gs)), <<>>, 0, 0, <<>>)
NIn_(s, k, cnt, gs) == In("N", PickBlades(s, k, cnt, BladesOf(gs)), <<>>, 0, 0, <<>>)
KIn(s, k, cnt, gs) == LET bl == PickBlades(s, k, cnt, BladesOf(gs))
                      IN In("K", bl, [j \in 1..Len(bl) |-> SmallInt(s, k + 11 * j)], 0, 0, <<>>)
QIn(s, k, cnt, gs) == [KIn(s, k, cnt, gs) EXCEPT !.rep = "Q", !.g0 = 2 + (Rnd(s, k + 7) % 5)]     \* g0: the denominator
DIn(gs) == In("D", <<>>, <<>>, Min(gs), Max(gs), Sorted(BladesOf(Min(gs)..Max(gs))))
DDIn(gs) == [DIn(gs) EXCEPT !.rep = "DD"]
UIn(gs) == In("U", <<>>, <<>>, Min(gs), Max(gs), Sorted(BladesOf(Min(gs)..Max(gs))))
FIn(g0, g1) == In("F", Sorted(BladesOf(g0..g1)), <<>>, g0, g1, <<>>)
XIn(s, k, cnt, gs, ds) ==
  In("X", PickBlades(s, k, cnt, BladesOf(gs)), <<>>, Min(ds), Max(ds), Sorted(BladesOf(Min(ds)..Max(ds))))
SIn == In("S", <<0>>, <<>>, 0, 0, <<>>)
CIn(bl) == In("V", bl, <<>>, 0, 0, <<>>)              \* given blades

St(op, a, p, f) == [op |-> op, a |-> a, p |-> p, f |-> f]

\* Tuples of integers whose squares add up to a square.
Pyth(len) ==
  CASE len = 1 -> <<<<3>>, <<-2>>, <<1>>, <<5>>, <<-4>>>>
    [] len = 2 -> <<<<3, 4>>, <<-4, 3>>, <<5, 12>>, <<8, -6>>, <<0, 2>>, <<-3, -4>>>>
    [] len = 3 -> <<<<1, 2, 2>>, <<2, -3, 6>>, <<-2, 1, 2>>, <<4, 4, 7>>, <<3, 0, -4>>, <<2, -6, 9>>>>
    [] len = 4 -> <<<<1, 1, 1, -1>>, <<1, 1, 3, 5>>, <<-2, 2, 4, 5>>, <<1, 3, -1, 5>>, <<2, 0, 1, -2>>>>
    [] len = 5 -> <<<<1, 1, 1, 2, 3>>, <<2, -1, 1, 3, 1>>, <<0, 1, 2, 2, 4>>>>
    [] OTHER -> <<[j \in 1..len |-> 1 + (j % 3)]>>

\* The j-th run-time coefficient of input i of program prog at valuation v.
\*   "int"  small integers, some of them zero     "nz"  small integers, none of them zero
\*   "pyth" squares add up to a square            "kc"  the numbers the input was given with compile-time constants
\*   "zero" integers, most of them zero
\*   "tiny" integers from -2 to 2                  "two"  2, 3, 4 or their opposites
\*   "near" 1000, 1001, 1002 or their opposites
\*   "sq"   squares of integers                   "pos" positive integers      "unit" 1 or -1
Coef(prog, v, i, j) ==
  LET r == Rnd(prog.id * 7 + i, 4001 + v * 131 + j * 17)
      x == prog.in[i]
      e == NoZero(((r \div 16) % 11) - 5) IN
  CASE x.pool = "int"  -> IF v > 1 /\ r % 11 = 0 THEN 0 ELSE e
    [] x.pool = "nz"   -> e
    [] x.pool = "pyth" -> LET ts == Pyth(MaxOf(1, Len(x.bl))) IN ts[1 + (Rnd(prog.id * 7 + i, 4001 + v * 131) % Len(ts))][j]
    [] x.pool = "kc"   -> x.kc[j]
    [] x.pool = "sq"   -> (1 + (r % 6)) * (1 + (r % 6))
    [] x.pool = "pos"  -> 1 + (r % 7)
    [] x.pool = "zero" -> IF r % 3 = 0 THEN e ELSE 0
    [] x.pool = "tiny" -> ((r \div 16) % 5) - 2
    [] x.pool = "two"  -> (2 + (r % 3)) * (IF (r \div 16) % 2 = 0 THEN 1 ELSE -1)
    [] x.pool = "near" -> (1000 + (r % 3)) * (IF (r \div 16) % 2 = 0 THEN 1 ELSE -1)
    [] x.pool = "unit" -> IF r % 2 = 0 THEN 1 ELSE -1
DynBlade(prog, v, i) == Pick(prog.in[i].al, prog.id * 5 + i, 9001 + v)

\* A blade spanned by vectors.  kc: how many of them the blades of the program share, then the blade whose basis
\* vectors the coordinates of each vector refer to.  Odd valuations use coordinates -1..1, even ones -2..2.
SpanVector(prog, v, i, j) ==
  LET x == prog.in[i]
      shared == j <= x.kc[1]
      m == IF v % 2 = 1 THEN 1 ELSE 2
      r(c) == Rnd(prog.id * 7 + (IF shared THEN 0 ELSE i), 7001 + v * 131 + j * 19 + c * 5)
  IN Mv([b \in Blades |-> IF Grade[b] = 1 /\ (b & x.kc[j + 1]) # 0 THEN (r(LowVec(b)) % (2 * m + 1)) - m ELSE 0])
SpanValue(prog, v, i) ==
  LET x == prog.in[i]  k == Len(x.kc) - 1
  IN IF k = 0 THEN Num(1 + (Rnd(prog.id * 7 + i, 7001 + v) % 4)) ELSE Span([j \in 1..k |-> SpanVector(prog, v, i, j)])

InputData(prog, v, i) ==
  LET x == prog.in[i] IN
  CASE x.rep \in {"V", "N", "F", "S", "I", "Vi", "Vf", "Y", "W"} -> [j \in 1..Len(x.bl) |-> Coef(prog, v, i, j)]
    [] x.rep \in {"B", "BV", "BS"} -> LET V == TLCEval(SpanValue(prog, v, i)) IN [j \in 1..Len(x.bl) |-> V.c[x.bl[j]]]
    [] x.rep \in {"K", "Q"} -> <<>>
    [] x.rep = "D" -> <<Coef(prog, v, i, 1), DynBlade(prog, v, i)>>
    [] x.rep = "DD" -> <<Coef(prog, v, i, 1), DynBlade(prog, v, i), Coef(prog, v, i, 2), Pick(x.al, prog.id * 5 + i, 9501 + v)>>
    [] x.rep = "U" -> <<DynBlade(prog, v, i)>>
    [] x.rep = "X" -> [j \in 1..Len(x.bl) |-> Coef(prog, v, i, j)] \o <<Coef(prog, v, i, 99), DynBlade(prog, v, i)>>
Data(prog, v) == FoldLeft(LAMBDA acc, i : acc \o InputData(prog, v, i), <<>>, [i \in 1..Len(prog.in) |-> i])

TermsOf(bl, cs) == [b \in Blades |-> LET J == {j \in 1..Len(bl) : bl[j] = b}
                                     IN IF J = {} THEN 0 ELSE cs[CHOOSE j \in J : TRUE]]
InputValue(prog, v, i) ==
  LET x == prog.in[i]  d == InputData(prog, v, i) IN
  CASE x.rep \in {"V", "N", "F", "S", "I", "Vi", "Vf", "B", "BV", "BS"} -> Mv(TermsOf(x.bl, d))
    [] x.rep = "K" -> Mv(TermsOf(x.bl, x.kc))
    [] x.rep = "Q" -> DivBy(Mv(TermsOf(x.bl, x.kc)), <<x.g0, 1>>)
    [] x.rep = "W" -> DivBy(Mv(TermsOf(x.bl, d)), <<x.g0, 1>>)
    [] x.rep = "Y" -> Mv(TermsOf(SubSeq(x.bl, 1, Len(x.bl) - 1), d))
    [] x.rep = "D" -> Term(d[2], d[1])
    [] x.rep = "U" -> Term(d[1], 1)
    [] x.rep = "DD" -> Add(Term(d[2], d[1]), Term(d[4], d[3]))
    [] x.rep = "X" -> Add(Mv(TermsOf(x.bl, d)), Term(d[Len(x.bl) + 2], d[Len(x.bl) + 1]))

-----------------------------------------------------------------------------
(* Profile "products": two operands of every pair of representations that   *)
(* the product accepts, the product, and a second product of its result.    *)

CONSTANT Ops
OpSeq == SetToSortSeq(Ops, LAMBDA x, y : x # y)       \* any fixed order

PairOfShapes(s, q) ==
  LET g == All IN
  CASE q = 0 -> <<VIn(s, 1, 3, g), VIn(s, 2, 3, g)>>
    [] q = 1 -> <<DIn(g), DIn(g)>>
    [] q = 2 -> <<KIn(s, 1, 2, g), VIn(s, 2, 3, g)>>
    [] q = 3 -> <<VIn(s, 1, 1, g), DIn(g)>>
    [] q = 4 -> <<NIn_(s, 1, 3, g), KIn(s, 2, 3, g)>>
    [] q = 5 -> <<DIn(g), NIn_(s, 2, 1, g)>>
    [] q = 6 -> <<FIn(1, 1), VIn(s, 2, 3, g)>>
    [] q = 7 -> <<UIn(g), DIn(g)>>
    [] q = 8 -> <<VIn(s, 1, 4, g), NIn_(s, 2, 2, g)>>
    [] q = 9 -> <<KIn(s, 1, 3, g), KIn(s, 2, 3, g)>>

ProductsProgram(s) ==
  LET op == Cyc(OpSeq, s)  op2 == Pick(OpSeq, s, 51)
      metricFree == op \in {"op", "rp"}
      \* blades known at run time only are not accepted by metric products where the metric is not diagonal
      q == IF TakesRuntime \/ metricFree THEN (s \div Len(OpSeq)) % 10
           ELSE Cyc(<<0, 2, 4, 6, 8, 9>>, s \div Len(OpSeq))
      f == Rnd(s, 52)
      C == q \in {0, 2, 4, 6, 8, 9}
      extra == IF C THEN <<VIn(s, 3, 2, All)>> ELSE <<>>
      last == IF C THEN <<St(op2, <<4, 3>>, <<>>, Rnd(s, 54))>> ELSE <<>>
  IN [in |-> PairOfShapes(s, q) \o extra,
      steps |-> <<St(op, <<1, 2>>, <<>>, f)>> \o last]

-----------------------------------------------------------------------------
(* Inputs by number, to cycle through the representations.                  *)

RepNames == <<"V", "N", "K", "D", "F", "U", "X">>
\* the grades a blade known at run time only may have: any, a few neighbouring ones, or a single one
SomeGrades(s, k, gs) ==
  LET r == Rnd(s, k + 5) % 4  lo == Rnd(s, k + 6) % n IN
  IF gs # All \/ r = 0 THEN gs \cup {1}          \* (the blade of grade zero alone is not a run-time choice)
  ELSE IF r = 3 THEN {lo + 1} ELSE lo..MinOf(n, lo + r)
RepIn(rep, s, k, cnt, gs) ==
  CASE rep = "V" -> VIn(s, k, cnt, gs)
    [] rep = "N" -> NIn_(s, k, cnt, gs)
    [] rep = "K" -> KIn(s, k, cnt, gs)
    [] rep = "Q" -> QIn(s, k, cnt, gs)
    [] rep = "D" -> DIn(SomeGrades(s, k, gs))
    [] rep = "U" -> UIn(SomeGrades(s, k, gs))
    [] rep = "DD" -> DDIn(SomeGrades(s, k, gs))
    [] rep = "F" -> LET g == Pick(Sorted(gs), s, k + 3) IN FIn(g, g)
    [] rep = "X" -> XIn(s, k, cnt, gs, SomeGrades(s, k, gs))
    [] rep = "S" -> SIn
Dynamic(rep) == rep \in {"D", "U", "X", "DD"}

(* Profile "signs" (C06): the three conjugations, of every representation,  *)
(* of each other and of products.                                           *)
SignOps == <<"reverse", "involute", "conjugate">>
SignsProgram(s) ==
  LET op == Cyc(SignOps, s)  op2 == Pick(SignOps, s, 61)
      rep == CycD(RepNames, s, 3)
      x == RepIn(rep, s, 1, 4, All)
      y == VIn(s, 2, IF Dynamic(rep) THEN 1 ELSE 2, All)
      more == IF rep \in {"V", "N", "K"} /\ TakesRuntime
              THEN <<St("gp", <<1, 2>>, <<>>, Rnd(s, 62)), St(op, <<5>>, <<>>, Rnd(s, 63)), St(op, <<2>>, <<>>, 0)>>
              ELSE <<>>
  IN [in |-> <<x, y>>, steps |-> <<St(op, <<1>>, <<>>, Rnd(s, 64)), St(op2, <<3>>, <<>>, Rnd(s, 65))>> \o more]

(* Profile "linear" (C07): sums and multiples of every pair of              *)
(* representations, with terms that cancel in part, fully, or not at all.   *)
LinearProgram(s) ==
  LET op == Cyc(<<"add", "sub">>, s)
      a == CycD(RepNames, s, 2)  b == CycD(RepNames, s, 14)
      small == Dynamic(a) \/ Dynamic(b)
      x == RepIn(a, s, 1, IF small THEN 2 ELSE 3, All)
      y0 == RepIn(b, s, 2, IF small THEN 1 ELSE 3, All)
      \* half of the time the second operand uses some of the blades of the first
      y == IF b \in {"V", "N"} /\ a \in {"V", "N", "K"} /\ s % 4 < 2 THEN In(b, x.bl, <<>>, 0, 0, <<>>) ELSE y0
      f(k) == Rnd(s, 70 + k)
      which == Rnd(s, 71) % 4
      tail == CASE which = 0 -> <<St("sub", <<4, 1>>, <<>>, 0), St("sub", <<5, 2>>, <<>>, 0)>>
                [] which = 1 -> <<St("smul", <<4, 3>>, <<>>, f(4)), St("sub", <<5, 4>>, <<>>, 0)>>
                [] which = 2 -> <<St("sdiv", <<4, 3>>, <<>>, f(5)), St("add", <<5, 2>>, <<>>, 0)>>
                [] which = 3 -> <<St("neg", <<4>>, <<>>, 0), St("add", <<5, 1>>, <<>>, 0), St("add", <<4, 5>>, <<>>, 0)>>
  IN [in |-> <<x, y, Pool(SIn, "nz")>>, steps |-> <<St(op, <<1, 2>>, <<>>, f(1))>> \o tail]

\* a number on either side of a sum, a product or a quotient
NumberProgram(s) ==
  LET a == Cyc(RepNames, s)
      op == CycD(<<"add", "sub", "smul", "radd", "rsub", "rmul", "sdiv", "pos">>, s, 7)
  IN [in |-> <<RepIn(a, s, 1, 3, All), Pool(SIn, "nz")>>,
      steps |-> IF op \in {"add", "sub", "smul", "sdiv"} THEN <<St(op, <<1, 2>>, <<>>, Rnd(s, 72)), St("neg", <<3>>, <<>>, 0)>>
                ELSE IF op = "pos" THEN <<St(op, <<1>>, <<>>, 0)>>
                ELSE <<St(op, <<2, 1>>, <<>>, Rnd(s, 72)), St("sub", <<3, 1>>, <<>>, 0)>>]

(* Profile "grade" (C12).                                                   *)
GradeProgram(s) ==
  LET rep == Cyc(RepNames, s)
      x0 == RepIn(rep, s, 1, 3, IF s % 3 = 0 THEN {Rnd(s, 81) % (n + 1)} ELSE All)
      \* a term known at run time only is not merged with the others: opposite terms are left to profile "opposite"
      x == IF rep = "X" THEN Pool(x0, "pos") ELSE x0
      k == Rnd(s, 82) % (n + 1)
      which == (s \div 7) % 3
      y == [VIn(s, 1, 3, All) EXCEPT !.rep = "Y", !.pool = IF s % 3 = 0 THEN "nz" ELSE "int"]
  IN IF rep = "U" THEN [in |-> <<y, VIn(s, 2, 1, All)>>,
                        steps |-> <<St("grade", <<1>>, <<>>, s \div 7), St("largestgrade", <<1>>, <<>>, s \div 7 + 1), St("takelargest", <<1>>, <<>>, s \div 14), St("iszero", <<1>>, <<>>, s \div 7)>>
                                   \o (IF s % 2 = 0 THEN <<St("dp", <<1, 2>>, <<>>, s \div 7)>> ELSE <<>>)]
     ELSE CASE which = 0 -> [in |-> <<x>>, steps |-> <<St("takegrade", <<1>>, <<k>>, Rnd(s, 83)), St("takegrade", <<1>>, <<(k + 1) % (n + 1)>>, Rnd(s, 84)),
                                                   St("grade", <<1>>, <<>>, 0), St("largestgrade", <<1>>, <<>>, 0), St("grade", <<2>>, <<>>, 0)>>]
       [] which = 1 -> [in |-> <<x>>, steps |-> <<St("takelargest", <<1>>, <<>>, Rnd(s, 83)), St("grade", <<2>>, <<>>, 0), St("iszero", <<1>>, <<>>, Rnd(s, 85)),
                                                   St("sub", <<1, 2>>, <<>>, 0)>>]
       [] which = 2 -> IF rep \in {"V", "N", "K"}
                       THEN [in |-> <<RepIn(rep, s, 1, 2, All), VIn(s, 2, 2, All)>>,
                             steps |-> <<St("cp", <<1, 2>>, <<>>, Rnd(s, 86)), St("dp", <<1, 2>>, <<>>, Rnd(s, 87)), St("cp", <<2, 1>>, <<>>, 0)>>]
                       ELSE [in |-> <<x, VIn(s, 2, 1, All)>>, steps |-> <<St("takegrade", <<1>>, <<k>>, Rnd(s, 83)), St("largestgrade", <<1>>, <<>>, 0),
                                                                         St("neg", <<1>>, <<>>, 0), St("grade", <<5>>, <<>>, 0)>>]

(* Profile "versor" (C09): norms, inverses and units of products of vectors *)
VecIn(s, k, cnt) == Pool(VIn(s, k, cnt, {1}), "pyth")
UnitK(s, k, cnt, gs) == LET bl == PickBlades(s, k, cnt, BladesOf(gs))
                        IN In("K", bl, [j \in 1..Len(bl) |-> IF Rnd(s, k + 13 * j) % 2 = 0 THEN 1 ELSE -1], 0, 0, <<>>)
VersorProgram(s) ==
  LET which == s % 8
      c1 == 1 + (Rnd(s, 91) % MinOf(n, 3))  c2 == 1 + (Rnd(s, 92) % MinOf(n, 3))
      f == Rnd(s, 93)
  IN CASE which = 0 -> [in |-> <<VecIn(s, 1, c1)>>,
                        steps |-> <<St("normsqr", <<1>>, <<>>, f), St("inv", <<1>>, <<>>, f), St("gp", <<1, 3>>, <<>>, 0), St("gp", <<3, 1>>, <<>>, 0),
                                    St("isnull", <<1>>, <<>>, f), St("isunit", <<1>>, <<>>, f)>>]
       [] which = 1 -> [in |-> <<VecIn(s, 1, c1)>>,
                        steps |-> <<St("rnorm", <<1>>, <<>>, f), St("unit", <<1>>, <<>>, f), St("normsqr", <<3>>, <<>>, f), St("isunit", <<3>>, <<>>, f), St("isnull", <<3>>, <<>>, f)>>]
       [] which = 2 -> [in |-> <<VecIn(s, 1, c1), VecIn(s, 2, c2), VIn(s, 3, 2, All)>>,
                        steps |-> <<St("gp", <<1, 2>>, <<>>, f), St("inv", <<4>>, <<>>, f), St("igp", <<3, 4>>, <<>>, f), St("normsqr", <<4>>, <<>>, f)>>]
       [] which = 3 -> LET x == Pool(RepIn(IF ~TakesRuntime THEN "V" ELSE IF s % 16 < 8 THEN "D" ELSE "U", s, 1, 1, 1..n), "pyth")
                       IN [in |-> <<x>>, steps |-> <<St("normsqr", <<1>>, <<>>, f), St("isnull", <<1>>, <<>>, f), St("isunit", <<1>>, <<>>, f), St("inv", <<1>>, <<>>, f), St("rnorm", <<1>>, <<>>, f), St("unit", <<1>>, <<>>, f)>>]
       [] which = 4 -> [in |-> <<VecIn(s, 1, c1), VecIn(s, 2, c2)>>,
                        steps |-> <<St("op", <<1, 2>>, <<>>, f), St("normsqr", <<3>>, <<>>, f), St("inv", <<3>>, <<>>, f), St("gp", <<3, 5>>, <<>>, f), St("rnorm", <<3>>, <<>>, f)>>]
       [] which = 5 -> [in |-> <<UnitK(s, 1, 1, All), VIn(s, 2, 2, All)>>,
                        steps |-> <<St("normsqr", <<1>>, <<>>, f), St("inv", <<1>>, <<>>, f), St("igp", <<2, 1>>, <<>>, f), St("isunit", <<1>>, <<>>, f)>>]
       [] which = 6 -> [in |-> <<RepIn(Pick(IF TakesRuntime THEN <<"V", "N", "K", "F", "X">> ELSE <<"V", "N", "K", "F">>, s, 94), s, 1, 4, All)>>,
                        steps |-> <<St("normsqr", <<1>>, <<>>, f), St("isnull", <<1>>, <<>>, f), St("isunit", <<1>>, <<>>, f), St("iszero", <<1>>, <<>>, f), St("rnorm", <<1>>, <<>>, f)>>]
       [] which = 7 -> [in |-> <<Pool(VIn(s, 1, 1, All), "pyth"), VIn(s, 2, 2, All)>>,
                        steps |-> <<St("unit", <<1>>, <<>>, f), St("igp", <<2, 1>>, <<>>, f), St("inv", <<1>>, <<>>, f), St("igp", <<1, 1>>, <<>>, f)>>]

(* Profile "sandwich" (C11): versors applied to elements.                   *)
SandwichProgram(s) ==
  LET arg == Pick(<<"V", "N", "K", "V", "F">>, s, 95)
      x == RepIn(arg, s, 1, 3, IF arg = "F" THEN {1} ELSE All)
      c1 == 1 + (Rnd(s, 91) % MinOf(n, 3))  c2 == 1 + (Rnd(s, 92) % MinOf(n, 3))
      f == Rnd(s, 96)
      which == s % 6
  IN CASE which = 0 -> [in |-> <<VecIn(s, 2, c1), x>>, steps |-> <<St("oddv", <<1, 2>>, <<>>, f)>>]
       [] which = 1 -> [in |-> <<VecIn(s, 2, c1), VecIn(s, 3, c2), x>>, steps |-> <<St("gp", <<1, 2>>, <<>>, 0), St("evenv", <<4, 3>>, <<>>, f)>>]
       [] which = 2 -> [in |-> <<VecIn(s, 2, c1), VecIn(s, 3, c2), x>>,
                        steps |-> <<St("unit", <<1>>, <<>>, 0), St("unit", <<2>>, <<>>, 0), St("gp", <<4, 5>>, <<>>, 0), St("rotor", <<6, 3>>, <<>>, f), St("evenv", <<6, 3>>, <<>>, f)>>]
       [] which = 3 -> [in |-> <<UnitK(s, 2, 1, {1}), x>>, steps |-> <<St("oddv", <<1, 2>>, <<>>, f), St("oddv", <<1, 3>>, <<>>, f)>>]
       [] which = 4 -> [in |-> <<Pool(VIn(s, 2, 1, {k \in 1..n : k % 2 = 0} \cup {0}), "nz"), x>>, steps |-> <<St("evenv", <<1, 2>>, <<>>, f), St("rotor", <<1, 2>>, <<>>, f)>>]
       [] which = 5 -> [in |-> <<Pool(In("V", <<0, 3>>, <<>>, 0, 0, <<>>), "pyth"), x>>, steps |-> <<St("rotor", <<1, 2>>, <<>>, f), St("evenv", <<1, 2>>, <<>>, f)>>]

(* Profile "dual" (C10).                                                    *)
DualProgram(s) ==
  LET rep == IF TakesRuntime THEN Cyc(RepNames, s) ELSE Cyc(<<"V", "N", "K", "V", "N">>, s)
      x == RepIn(rep, s, 1, 3, All)
      f == Rnd(s, 97)
      which == (s \div 7) % 4
      blade == IF Rnd(s, 98) % 2 = 0 THEN Pool(VIn(s, 2, 1, {n - 1, n}), "nz") ELSE UnitK(s, 2, 1, {n - 1, n})
  IN CASE which = 0 -> [in |-> <<x>>, steps |-> <<St("undual", <<1>>, <<>>, f), St("dual", <<1>>, <<>>, f), St("undual", <<3>>, <<>>, f)>>]
       [] which = 1 -> [in |-> <<x>>, steps |-> <<St("dual", <<1>>, <<>>, f), St("undual", <<2>>, <<>>, f)>>]
       [] which = 2 -> IF Dynamic(rep) THEN [in |-> <<x, UnitK(s, 2, 1, {n - 1, n})>>, steps |-> <<St("undualby", <<1, 2>>, <<>>, f), St("dualby", <<1, 2>>, <<>>, f)>>]
                       ELSE [in |-> <<x, blade>>, steps |-> <<St("undualby", <<1, 2>>, <<>>, f), St("dualby", <<1, 2>>, <<>>, f), St("undualby", <<4, 2>>, <<>>, f)>>]
       [] which = 3 -> [in |-> <<VecIn(s, 1, 2), VecIn(s, 2, 2), VIn(s, 3, 2, All)>>,
                        steps |-> <<St("op", <<1, 2>>, <<>>, 0), St("undualby", <<3, 4>>, <<>>, f), St("dualby", <<3, 4>>, <<>>, f), St("dual", <<4>>, <<>>, f)>>]

(* Profile "reps" (C04): the same multivectors, written down in two ways,   *)
(* given to the same operation.                                             *)
Same(rep, s, k, x) ==                    \* the multivector of the constant input x in another representation
  CASE rep = "K" -> x
    [] rep \in {"V", "N", "Vi", "Vf"} -> [x EXCEPT !.rep = rep, !.pool = "kc"]
    [] rep = "D" -> Pool(In("D", x.bl, x.kc, 0, n, x.bl), "kc")                  \* one term only
    [] rep = "F" -> LET gs == {Grade[x.bl[j]] : j \in 1..Len(x.bl)}
                        bl == Sorted(BladesOf(Min(gs)..Max(gs)))
                    IN [x EXCEPT !.rep = "F", !.bl = bl, !.kc = [j \in 1..Len(bl) |-> LET J == {q \in 1..Len(x.bl) : x.bl[q] = bl[j]} IN IF J = {} THEN 0 ELSE x.kc[CHOOSE q \in J : TRUE]],
                                !.g0 = Min(gs), !.g1 = Max(gs), !.pool = "kc"]
UnaryOps == <<"reverse", "involute", "conjugate", "takegrade", "takelargest", "largestgrade", "dual", "undual", "normsqr", "neg", "inv", "iszero", "isnull">>
BinaryOps == <<"gp", "op", "rp", "dot", "hip", "lcont", "rcont", "sp", "add", "sub", "cp", "dp", "evenv", "igp">>
RepsProgram(s) ==
  LET unary == s % 3 = 0
      op == IF unary THEN CycD(UnaryOps, s, 3) ELSE Cyc(BinaryOps, s)
      g == Rnd(s, 101) % (n + 1)
      one == s % 5 = 0                   \* one term only, so that it can be given at run time
      x == IF op \in {"inv"} THEN UnitK(s, 1, 1, All) ELSE KIn(s, 1, IF one THEN 1 ELSE 2, IF s % 4 = 0 THEN {g} ELSE {g, (g + 1) % (n + 1)})
      y == IF op \in {"igp"} THEN UnitK(s, 2, 1, All) ELSE KIn(s, 2, IF one THEN 1 ELSE 2, All)
      z == IF op = "evenv" THEN UnitK(s, 1, 1, {k \in 0..n : k % 2 = 0}) ELSE x
      noD == ~TakesRuntime \/ op \in {"cp", "dp", "takelargest", "largestgrade", "evenv"}
      r1 == IF one /\ ~noD THEN "D" ELSE Pick(<<"V", "N", "Vi", "V">>, s, 102)
      r2 == Pick(<<"V", "N", "F", "Vf", "V">>, s, 103)
      q1 == IF op \in {"takelargest", "largestgrade", "dp", "cp", "evenv", "igp", "inv"} /\ r2 \in {"F", "Vf"} THEN "V" ELSE r2
      q0 == IF op \in {"inv", "igp", "cp"} /\ r1 = "Vi" THEN "V" ELSE r1
      p == <<g>>  f == Rnd(s, 104)
  IN IF unary
     THEN [in |-> <<z, Same(q0, s, 3, z), Same(q1, s, 4, z)>>, steps |-> <<St(op, <<1>>, p, f), St(op, <<2>>, p, f + 1), St(op, <<3>>, p, f + 2)>>]
     ELSE [in |-> <<z, y, Same(q0, s, 3, z), Same(IF q0 = "D" THEN "V" ELSE q1, s, 4, y)>>,
           steps |-> <<St(op, <<1, 2>>, p, f), St(op, <<3, 2>>, p, f + 1), St(op, <<1, 4>>, p, f + 2)>>
                     \o (IF q0 = "D" THEN <<>> ELSE <<St(op, <<3, 4>>, p, f)>>)]

(* Profile "lazy" (C05): whole expressions evaluated at once.               *)
LazyOps == <<"gp", "op", "add", "sub", "lcont", "rp", "dot", "hip", "rcont", "sp", "gp", "add">>
LazyUn == <<"neg", "reverse", "involute", "conjugate", "takegrade", "undual", "normsqr">>
LazyProgram(s) ==
  LET a == Cyc(<<"V", "K", "V", "N", "D", "V">>, s)  b == CycD(<<"V", "V", "K", "N">>, s, 6)
      x == RepIn(a, s, 1, IF a = "D" THEN 1 ELSE 2, IF a = "D" THEN {1} ELSE All)
      y == RepIn(b, s, 2, IF a = "D" THEN 1 ELSE 2, All)
      z == VIn(s, 3, 1, All)
      o(k) == Pick(LazyOps, s, 110 + k)
      u(k) == Pick(LazyUn, s, 120 + k)
      g == <<Rnd(s, 130) % (n + 1)>>
      f(k) == Rnd(s, 140 + k)
      which == Rnd(s, 131) % 5
      steps == CASE a = "D" -> <<St(o(1), <<1, 2>>, <<>>, f(1)), St("neg", <<4>>, g, f(2)), St("add", <<4, 5>>, <<>>, 0), St("sub", <<4, 2>>, <<>>, 0)>>
                 [] which = 0 -> <<St(o(1), <<1, 2>>, <<>>, f(1)), St(u(1), <<4>>, g, f(2)), St(o(2), <<5, 3>>, <<>>, f(3)), St("sub", <<6, 4>>, <<>>, f(4))>>
                 [] which = 1 -> <<St(o(1), <<1, 1>>, <<>>, f(1)), St(o(2), <<1, 2>>, <<>>, f(2)), St(o(3), <<4, 5>>, <<>>, f(3))>>
                 [] which = 2 -> <<St("gp", <<1, 2>>, <<>>, f(1)), St("gp", <<2, 1>>, <<>>, f(2)), St("sub", <<4, 5>>, <<>>, f(3)), St("add", <<4, 5>>, <<>>, f(4)), St("add", <<6, 7>>, <<>>, 0)>>
                 [] which = 3 -> <<St("add", <<1, 2>>, <<>>, f(1)), St(o(2), <<4, 3>>, <<>>, f(2)), St("sub", <<5, 5>>, <<>>, f(3)), St(u(2), <<5>>, g, f(4)), St(o(4), <<7, 1>>, <<>>, f(5))>>
                 [] which = 4 -> <<St(o(1), <<3, 1>>, <<>>, f(1)), St(o(2), <<4, 2>>, <<>>, f(2)), St(o(3), <<5, 3>>, <<>>, f(3)), St("normsqr", <<5>>, <<>>, 0)>>
  IN [in |-> <<x, y, z>>, steps |-> steps]
(* Profile "fractions" (C04, C05, C08): coefficients that are quotients of  *)
(* compile-time constants, in every operation.                              *)
FractionsProgram(s) ==
  LET un == Cyc(<<"neg", "reverse", "involute", "conjugate", "takegrade", "takelargest", "largestgrade", "undual", "normsqr", "inv", "iszero", "isnull", "isunit">>, s)
      bin == Cyc(<<"gp", "op", "rp", "dot", "hip", "lcont", "rcont", "sp", "add", "sub", "add", "sub", "cp", "dp", "igp">>, s)
      g == <<Rnd(s, 160) % (n + 1)>>
      r == Pick(IF TakesRuntime /\ bin \notin {"cp", "dp"} THEN <<"Q", "V", "K", "N", "U", "D", "U">> ELSE <<"Q", "V", "K", "N">>, s, 162)
      x == IF un = "inv" THEN QIn(s, 1, 1, {1, 2}) ELSE QIn(s, 1, IF r \in {"U", "D"} THEN 1 ELSE 2, All)
      y == IF bin = "igp" THEN QIn(s, 2, 1, {0, 1, 2}) ELSE IF bin \in {"add", "sub"} THEN [QIn(s, 2, 2, All) EXCEPT !.bl = x.bl, !.kc = [j \in 1..Len(x.bl) |-> SmallInt(s, 161 + j)]] ELSE RepIn(r, s, 2, 2, All)
      z == IF bin \in {"add", "sub"} THEN [x EXCEPT !.rep = "V", !.pool = "int"] ELSE VIn(s, 3, 2, All)
      f == Rnd(s, 163)
  IN [in |-> <<x, y, z>>, steps |-> <<St(un, <<1>>, g, f), St(bin, <<1, 2>>, <<>>, f), St(IF bin = "igp" THEN "sub" ELSE bin, <<3, 1>>, <<>>, f), St("add", <<1, 3>>, <<>>, 0), St("sub", <<5, 3>>, <<>>, 0)>>]
(* Profiles "quotients" and "lquotients" (C05, C07, C08): integers, unit     *)
(* fractions and fractions fixed at compile time, of either sign, over equal  *)
(* and over different denominators, added to and subtracted from each other   *)
(* in either order; then the same times a number known at run time.           *)
QuotientKinds == <<"int", "unit", "-unit", "frac", "-frac">>
Quotient(kind, s, k, bl, den) ==
  LET big(j) == 2 + (Rnd(s, k + 13 * j) % 6)
      num(j) == CASE kind = "int" -> SmallInt(s, k + 11 * j) [] kind = "unit" -> 1 [] kind = "-unit" -> -1 [] kind = "frac" -> big(j) [] kind = "-frac" -> -big(j)
  IN In(IF kind = "int" THEN "K" ELSE "Q", bl, [j \in 1..Len(bl) |-> num(j)], IF kind = "int" THEN 0 ELSE den, 0, <<>>)
QuotientsProgram(s) ==
  LET ka == Cyc(QuotientKinds, s)  kb == CycD(QuotientKinds, s, 5)
      bl == PickBlades(s, 170, 2, Blades)
      da == 2 + (Rnd(s, 171) % 6)
      db == IF (s \div 25) % 2 = 0 THEN 2 + ((da + 1 + (Rnd(s, 172) % 4)) % 6) ELSE Pick(<<da, 2 * da, 3 * da>>, s, 173)
      f(k) == Rnd(s, 174 + k)
      pr == Pick(<<"gp", "op">>, s, 180)
  IN [in |-> <<Quotient(ka, s, 175, bl, da), Quotient(kb, s, 178, bl, db), VIn(s, 3, 1, {0, 1})>>,
      steps |-> <<St("add", <<1, 2>>, <<>>, f(1)), St("add", <<2, 1>>, <<>>, f(1)), St("sub", <<1, 2>>, <<>>, f(2)), St("sub", <<2, 1>>, <<>>, f(2)),
                  St(pr, <<1, 3>>, <<>>, 0), St(pr, <<2, 3>>, <<>>, 0), St("add", <<8, 9>>, <<>>, 0), St("sub", <<9, 8>>, <<>>, 0), St("neg", <<6>>, <<>>, 0)>>]
=============================================================================
