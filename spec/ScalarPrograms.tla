--------------------------- MODULE ScalarPrograms ---------------------------
(***************************************************************************)
(* Programs over numbers: the scalar functions and the arithmetic whose    *)
(* expressions the library simplifies (C08), and printing (C20).           *)
(***************************************************************************)
EXTENDS Extras

ScIn(rep, s, k, pool) ==
  CASE rep = "K" -> In("K", <<0>>, <<SmallInt(s, k)>>, 0, 0, <<>>)
    [] rep = "K+" -> In("K", <<0>>, <<1 + (Rnd(s, k) % 9)>>, 0, 0, <<>>)
    [] rep = "Q" -> In("Q", <<0>>, <<SmallInt(s, k)>>, 2 + (Rnd(s, k + 1) % 4), 0, <<>>)
    [] rep = "Q+" -> In("Q", <<0>>, <<1 + (Rnd(s, k) % 9)>>, 2 + (Rnd(s, k + 1) % 4), 0, <<>>)
    [] OTHER -> Pool(In(rep, <<0>>, <<>>, 0, 0, <<>>), pool)
\* an integer fixed at compile time, in -12..12 without 0
Whole(s, k) == LET v == 1 + (Rnd(s, k) % 12) IN In("K", <<0>>, <<IF Rnd(s, k + 1) % 2 = 0 THEN v ELSE -v>>, 0, 0, <<>>)
RealUnary == <<"fsqrt", "fcbrt", "fabs", "fexp", "flog", "fcos", "fsin", "ftan", "fcosh", "fsinh", "ftanh", "fneg", "fabs", "fsqrt", "fcbrt">>
RealBinary == <<"fadd", "fsub", "fmul", "fdiv", "fpow", "fmul", "fadd">>
Fixed(k) == In("K", <<0>>, <<k>>, 0, 0, <<>>)
Frac(p, q) == In("Q", <<0>>, <<p>>, q, 0, <<>>)
Exponents == <<Fixed(2), Fixed(3), Fixed(-1), Fixed(-2), Frac(1, 2), Frac(1, 3), Fixed(4), Frac(3, 2), Frac(-1, 2), Fixed(-3), Frac(2, 3), Fixed(1), Fixed(0), Fixed(5), Frac(5, 2), Frac(1, 4)>>

RealsProgram(s) ==
  LET kind == s % 14
      f == Rnd(s, 501)
      pool == Pick(<<"int", "pos", "sq", "nz", "int", "pos">>, s, 502)
      x == ScIn(Pick(<<"V", "V", "V", "Vi", "N">>, s, 503), s, 504, pool)
      y == ScIn(Pick(<<"V", "V", "N", "V">>, s, 505), s, 506, Pick(<<"int", "pos", "nz">>, s, 507))
      k == ScIn(Pick(<<"K", "K+", "Q", "Q+">>, s, 508), s, 509, "kc")
      u(i) == Pick(RealUnary, s, 510 + i)
      b(i) == Pick(RealBinary, s, 520 + i)
      e(i) == Pick(Exponents, s, 530 + i)
      C(op, i, j) == St(op, <<i, j>>, NoArgs, f)
      F(op, i) == St(op, <<i>>, NoArgs, f)
      any(i, top) == 1 + (Rnd(s, 540 + i) % top)
  IN CASE kind = 0 -> [in |-> <<x, k>>, steps |-> <<F(u(1), 1), F(u(2), 3), C("fadd", 3, 4), C("fmul", 5, 3), C("fmul", 6, 2)>>]
       [] kind = 1 -> [in |-> <<x, e(1), e(2), e(3)>>, steps |-> <<C("fpow", 1, 2), C("fpow", 1, 3), C("fmul", 5, 6), C("fpow", 5, 4), C("fdiv", 7, 5), C("fmul", 1, 5)>>]
       [] kind = 2 -> [in |-> <<x, e(1), k>>, steps |-> <<C("fmul", 1, 1), F("fsqrt", 4), C("fpow", 4, 2), F("fcbrt", 4), C("fmul", 4, 1), F("fcbrt", 8), C("fmul", 3, 4)>>]
       [] kind = 3 -> [in |-> <<x, y, e(1)>>, steps |-> <<C("fmul", 1, 2), F("fabs", 4), F("fcbrt", 4), C("fpow", 4, 3), C("fmul", 4, 1), F("fsqrt", 4)>>]
       [] kind = 4 -> [in |-> <<x, y, k>>, steps |-> <<C("fadd", 1, 2), C("fsub", 1, 2), C("fmul", 4, 5), C("fmul", 1, 1), C("fmul", 2, 2), C("fsub", 7, 8), C("fsub", 9, 6), C("fadd", 4, 3), C("fdiv", 4, 5)>>]
       [] kind = 5 -> [in |-> <<ScIn(Pick(<<"Q", "Q+", "K+">>, s, 550), s, 551, ""), k, e(1)>>,
                       steps |-> <<C(b(1), 1, 2), F("fabs", 4), F(u(1), 1), C("fmul", 6, 5), F(u(2), 2), C("fadd", 8, 6), C("fpow", 5, 3), C("fmul", 10, 10)>>]
       [] kind = 6 -> [in |-> <<Pool(x, "pos"), y, k>>, steps |-> <<C("fpow", 1, 2), F("flog", 4), F("flog", 1), C("fmul", 2, 6), C("fsub", 5, 7), F("fsqrt", 4), C("fpow", 1, 3), C("fmul", 4, 10)>>]
       [] kind = 7 -> [in |-> <<x, y, k, ScIn("Q", s, 555, "")>>, steps |-> <<C("fadd", 1, 1), C("fadd", 5, 1), C("fmul", 3, 1), C("fmul", 4, 1), C("fadd", 7, 8), C("fsub", 6, 9), C("fmul", 1, 2), C("fmul", 2, 1), C("fadd", 11, 12), C("fsub", 13, 11)>>]
       [] kind = 8 -> [in |-> <<x, k>>, steps |-> <<C("fmul", 2, 1), F(u(1), 3), C("fadd", 2, 1), F(u(2), 5), F("fneg", 1), F(u(3), 7), F("fabs", 7), F("fabs", 3)>>]
       [] kind = 9 -> [in |-> <<x, y, e(1)>>, steps |-> <<F("fcbrt", 1), C("fmul", 4, 4), C("fmul", 4, 1), C("fmul", 4, 2), F("fcbrt", 6), C("fmul", 5, 4), C("fadd", 4, 4), C("fpow", 4, 3)>>]
       \* quotients of constants of either sign, with and without common factors
       [] kind = 12 -> [in |-> <<Whole(s, 570), Whole(s, 572), Fixed(-1), Pick(<<Fixed(-2), Fixed(2), Fixed(-3), Fixed(3)>>, s, 574), k, x>>,
                        steps |-> <<C("fpow", 2, 3), C("fmul", 1, 7), C("fdiv", 1, 2), C("fsub", 8, 9), C("fmul", 5, 8), C("fpow", 8, 4), C("fadd", 7, 5), C("fmul", 12, 7), C("fmul", 8, 6), C("fpow", 15, 3), C("fmul", 16, 8)>>]
       [] kind = 13 -> [in |-> <<ScIn(Pick(<<"V", "N">>, s, 503), s, 504, "nz"), y, Whole(s, 570), Whole(s, 572), Fixed(-1)>>,
                        steps |-> <<C("fmul", 3, 1), C("fmul", 4, 2), C("fdiv", 6, 7), C("fmul", 7, 4), C("fpow", 9, 5), C("fmul", 6, 10), C("fdiv", 1, 4), C("fdiv", 12, 3), C("fdiv", 3, 6), C("fmul", 14, 13)>>]
       [] OTHER -> [in |-> <<x, y, k>>, steps |-> [i \in 1..6 |-> IF Rnd(s, 560 + i) % 3 = 0 THEN F(u(i), any(2 * i, 2 + i)) ELSE C(b(i), any(2 * i, 2 + i), any(2 * i + 1, 2 + i))]]

(* Profile "text" (C20): what is printed denotes the multivector printed.   *)
TextSteps(i, f) == <<St("text", <<i>>, BasisNames, f)>>
TextReps == <<"V", "K", "Q", "F", "D", "N", "X", "U", "Vi", "V", "Vf", "K">>
TextProgram(s) ==
  LET kind == s % 10
      f == s \div 10
      t(i) == St("text", <<i>>, BasisNames, f + i)
      rep == Cyc(TextReps, f)
      cnt == 1 + (Rnd(s, 601) % 4)
      x == LET y == IF rep \in {"Vi", "Vf"} THEN [VIn(s, 1, cnt, All) EXCEPT !.rep = rep] ELSE RepIn(rep, s, 1, cnt, All)
           IN Pool(y, Pick(<<"int", "zero", "nz", "int">>, s, 602))
      k1 == ScIn(Pick(<<"K+", "Q+", "K+">>, s, 603), s, 604, "")
      k2 == ScIn(Pick(<<"K", "Q", "K+">>, s, 605), s, 606, "")
      C(op, i, j) == St(op, <<i, j>>, NoArgs, f)
      F1(op, i) == St(op, <<i>>, NoArgs, f)
      root == Pick(<<"fsqrt", "fcbrt", "flog", "fsqrt">>, s, 607)
      fn == Pick(<<"fexp", "fcos", "fsin", "ftan", "fcosh", "fsinh", "ftanh", "fabs", "fcbrt">>, s, 608)
  IN CASE kind \in {0, 1} -> [in |-> <<x>>, steps |-> <<t(1), F1("neg", 1), t(2), F1("pos", 1), t(4)>>]
       [] kind = 2 -> [in |-> <<IF TakesRuntime /\ f % 3 = 2 THEN DIn(All) ELSE VIn(s, 1, 2, All), KIn(s, 2, IF f % 3 = 2 THEN 1 ELSE 2, All)>>, steps |-> <<C(Pick(<<"gp", "op", "lcont">>, s, 609), 1, 2), t(3), C("add", 1, 2), t(4 + 1), C("sub", 1, 2), t(7)>>]
       [] kind = 3 -> [in |-> <<KIn(s, 1, 2, All), QIn(s, 2, 2, All)>>, steps |-> <<C("gp", 1, 2), t(3), C("add", 1, 2), t(5), C("sub", 1, 1), t(7), C("sub", 2, 1), t(9)>>]
       [] kind = 4 -> [in |-> <<k1, k2>>, steps |-> <<F1(root, 1), t(3), F1(fn, 2), t(5), C("fmul", 3, 5), t(7), C("fadd", 3, 5), t(9), C("fadd", 1, 5), t(11)>>]
       [] kind = 5 -> [in |-> <<k1, k2, KIn(s, 3, 2, All)>>, steps |-> <<F1(root, 1), F1(fn, 2), C("fscale", 4, 3), t(6), St("fmix", <<4, 3, 5, 3>>, NoArgs, f), t(8), St("fmix", <<2, 3, 4, 3>>, NoArgs, f), t(10)>>]
       [] kind = 6 -> [in |-> <<k1, VIn(s, 2, 2, All), KIn(s, 3, 2, All)>>, steps |-> <<F1(root, 1), C("fscale", 4, 2), t(5), St("fmix", <<4, 3, 1, 2>>, NoArgs, f), t(7)>>]
       [] kind = 7 -> [in |-> <<x, Pool(SIn, "nz")>>, steps |-> <<C("sub", 1, 1), t(3), C("smul", 1, 2), t(5), F1("reverse", 1), t(7)>>]
       [] kind = 8 -> [in |-> <<>>, steps |-> [j \in 1..(2 * Len(ConstNames)) |-> IF j % 2 = 1 THEN St("konst", <<>>, <<ConstNames[(j + 1) \div 2]>>, f) ELSE t(j - 1)]]
       [] kind = 9 -> [in |-> <<ScIn(Pick(<<"V", "Vi">>, s, 610), s, 611, "pos"), k1, VIn(s, 3, 1, All)>>, steps |-> <<C("fpow", 1, 2), t(4), F1(fn, 2), C("fmul", 6, 1), t(7), C("fscale", 7, 3), t(9)>>]
=============================================================================
