----------------------------- MODULE Tolerances -----------------------------
(***************************************************************************)
(* Programs about what counts as zero (C12, C09, C14): tolerances given by *)
(* the user, and coefficients that are small but not negligible.           *)
(***************************************************************************)
EXTENDS ScalarPrograms

(* Profile "tolerance": queries up to a tolerance, in quarters.             *)
ToleranceProgram(s) ==
  LET rep == Cyc(<<"V", "K", "D", "F", "N", "U", "V", "N">>, s)
      f == s \div 8
      x == RepIn(IF ~TakesRuntime /\ Dynamic(rep) THEN "V" ELSE rep, s, 1, 3, IF s % 3 = 0 THEN {Rnd(s, 701) % (n + 1)} ELSE All)
      t(k) == <<Pick(<<2, 4, 6, 8, 9, 10, 12, 14, 16, 18>>, s, 702 + k)>>
      u == <<Pick(<<4, 36, 38, 100, 16, 2>>, s, 712)>>
      T(op, i, p, j) == St(op, <<i>>, p, f + j)
  IN CASE (f + s) % 3 = 0 -> [in |-> <<x>>, steps |-> <<T("gradeT", 1, t(1), 0), T("largestT", 1, t(1), 1), T("takelargestT", 1, t(2), 0), T("iszeroT", 1, t(2), 1)>>]
       [] (f + s) % 3 = 1 -> [in |-> <<x>>, steps |-> <<T("isnullT", 1, u, 0), T("isunitT", 1, u, 1), T("takelargestT", 1, t(3), 1), T("gradeT", 1, t(3), 1), T("largestT", 1, t(1), 2)>>]
       [] (f + s) % 3 = 2 -> IF Dynamic(x.rep) \/ x.rep = "F" THEN [in |-> <<x>>, steps |-> <<T("gradeT", 1, t(1), 1), T("iszeroT", 1, t(2), 0), T("largestT", 1, t(3), 0)>>]
                             ELSE [in |-> <<x, VIn(s, 2, 2, {1})>>, steps |-> <<St("dpT", <<1, 2>>, u, f), T("iszeroT", 1, t(1), 0), T("isunitT", 2, u, 0), T("isnullT", 2, u, 1)>>]

(* Profile "deftol": the same queries with the tolerance left to the        *)
(* library, in a configuration where the default is 3/2 for double and 5/2  *)
(* for float.                                                              *)
DefaultToleranceProgram(s) ==
  LET r == Cyc(<<"V", "Vf", "F", "D", "N", "Vf", "V">>, s)
      rep == IF ~TakesRuntime /\ Dynamic(r) THEN "V" ELSE r
      f == s \div 7
      t == IF rep = "Vf" THEN <<10>> ELSE <<6>>
      x == IF rep = "Vf" THEN [VIn(s, 1, 3, All) EXCEPT !.rep = "Vf"] ELSE RepIn(rep, s, 1, 3, All)
      y == IF rep = "Vf" THEN [VIn(s, 2, 2, {1}) EXCEPT !.rep = "Vf"] ELSE VIn(s, 2, 2, {1})
      T(op, i) == St(op, <<i>>, t, f)
  IN IF (f + s) % 2 = 0 \/ Dynamic(rep) \/ rep = "F"
     THEN [in |-> <<x>>, steps |-> <<T("gradeT", 1), T("largestT", 1), T("takelargestT", 1), T("iszeroT", 1)>>]
     ELSE [in |-> <<x, y>>, steps |-> <<St("dpT", <<1, 2>>, t, f), T("iszeroT", 1), T("gradeT", 2), T("iszeroT", 3), T("takelargestT", 1)>>]

\* the queries of C09
NullProgram(s) ==
  LET rep == Cyc(<<"V", "K", "D", "F", "N", "U", "V", "Q">>, s)
      f == s \div 8
      x == RepIn(IF ~TakesRuntime /\ Dynamic(rep) THEN "V" ELSE rep, s, 1, 3, All)
      u(k) == <<Pick(<<4, 36, 38, 100, 16, 2>>, s, 732 + k)>>
      near == Pool([VIn(s, 2, 1, All) EXCEPT !.rep = "W", !.g0 = 1000], "near")
      small == Pool([VIn(s, 3, 1, All) EXCEPT !.rep = "W", !.g0 = 500], "two")
  IN [in |-> <<x, near, small>>,
      steps |-> <<St("isnullT", <<1>>, u(1), f), St("isunitT", <<1>>, u(2), f + 1), St("isnull", <<2>>, <<>>, f), St("isunit", <<2>>, <<>>, f), St("isnull", <<3>>, <<>>, f), St("isunit", <<3>>, <<>>, f),
                  St("iszeroT", <<1>>, u(3), f), St("iszero", <<3>>, <<>>, f)>>]

(* Profile "opposite": a term whose blade is known at run time only, added  *)
(* to its opposite.                                                         *)
OppositeProgram(s) ==
  LET q == Cyc(<<"grade", "largestgrade", "takelargest", "iszero">>, s)
      b == M - 1
  IN [in |-> <<Pool(In("V", <<b>>, <<-3>>, 0, 0, <<>>), "kc"), Pool(In("D", <<b>>, <<3>>, 0, n, <<b>>), "kc")>>,
      steps |-> <<St("add", <<1, 2>>, <<>>, 0), St(q, <<3>>, <<>>, s \div 4)>>]

(* Profile "small": sums divided by a large number.                         *)
WIn(s, k, cnt, gs, d) == Pool([VIn(s, k, cnt, gs) EXCEPT !.rep = "W", !.g0 = d], "two")
SmallProgram(s) ==
  LET f == s \div 4
      one == IF f % 3 = 0 THEN {Rnd(s, 721) % (n + 1)} ELSE All
      x == WIn(s, 1, 3, one, 100000)
      T(op, i) == St(op, <<i>>, <<>>, f)
  IN CASE s % 4 = 0 -> [in |-> <<x>>, steps |-> <<T("grade", 1), T("largestgrade", 1), T("takelargest", 1), T("iszero", 1)>>]
       [] s % 4 = 1 -> [in |-> <<WIn(s, 1, 2, All, 200), WIn(s, 2, 2, All, 250), WIn(s, 3, 1, All, 500)>>, steps |-> <<St("dp", <<1, 2>>, <<>>, f), T("isnull", 3), T("isunit", 3)>>]
       [] s % 4 = 2 -> LET y == Pool(WIn(s, 1, 1, All, 1000), "near") IN [in |-> <<y>>, steps |-> <<T("isunit", 1), T("isnull", 1), T("iszero", 1)>>]
       [] s % 4 = 3 -> [in |-> <<WIn(s, 1, 1 + (f % 2), IF f % 2 = 0 THEN All ELSE {1}, 10000)>>, steps |-> <<T("exp", 1), St("exp", <<1>>, <<>>, f + 1)>>]
SmallExpProgram(s) == SmallProgram(4 * s + 3)

(* Profile "scalars": numbers and scalars of every kind as operands of every *)
(* form of every call in Ops.                                               *)
ScalarKinds == <<"S", "I", "V0", "K0", "V1", "K1", "D">>
KindPairs == SelectSeq([j \in 1..49 |-> <<ScalarKinds[1 + ((j - 1) \div 7)], ScalarKinds[1 + ((j - 1) % 7)]>>],
                       LAMBDA q : (q[1] \in {"S", "I", "V0", "K0"} \/ q[2] \in {"S", "I", "V0", "K0"}) /\ (TakesRuntime \/ ("D" # q[1] /\ "D" # q[2])))
KindIn(k, s, j) ==
  CASE k \in {"S", "I"} -> Pool([SIn EXCEPT !.rep = k], "nz")
    [] k = "V0" -> Pool(CIn(<<0>>), "nz")
    [] k = "K0" -> KIn(s, j, 1, {0})
    [] k = "V1" -> Pool(CIn(<<1, 2>>), "pyth")
    [] k = "K1" -> In("K", <<1, 2>>, <<3, 4>>, 0, 0, <<>>)
    [] k = "D" -> Pool(DIn(1..n), "nz")
ScalarsProgram(s) ==
  LET op == Cyc(OpSeq, s)
      s2 == s \div Len(OpSeq)
      one == op \in {"reverse", "involute", "conjugate", "takegrade", "takelargest", "grade", "largestgrade", "dual", "undual", "normsqr", "rnorm", "inv", "unit", "isnull", "isunit", "iszero", "exp"}
      q == IF one THEN <<Cyc(ScalarKinds, s2), "S">> ELSE Cyc(KindPairs, s2)
      p == <<Rnd(s, 761) % 2>>
      \* relative to a blade that is not a number
      x == KindIn(q[1], s, 1)  y == KindIn(q[2], s, 2)
      \* dividing whole numbers by whole numbers is the division of the language
      isOk == /\ (op = "igp" => q[2] # "I")
              /\ (op \in {"dualby", "undualby"} => q[2] \notin {"S", "I"})
              /\ (op \in {"project", "reject"} => q[1] \in {"V1", "K1", "D"} /\ q[2] \notin {"S", "I"})
              /\ (q[1] = "D" => TakesRuntime) /\ (op \in {"isnull", "isunit", "iszero"} => q[1] \notin {"S", "I"})
  IN IF one THEN [in |-> <<x>>, steps |-> IF isOk THEN [j \in 1..4 |-> St(op, <<1>>, p, j - 1)] ELSE <<>>]
     ELSE [in |-> <<x, y>>, steps |-> IF isOk THEN [j \in 1..3 |-> St(op, <<1, 2>>, p, j - 1)] ELSE <<>>]

(* Profile "runtime" (C05): deferred expressions whose arguments hold one or *)
(* two blades known at run time only, next to fixed terms or not.            *)
RuntimeProgram(s) ==
  LET a == Cyc(<<"DD", "X", "D", "U", "DD", "F">>, s)
      b == CycD(<<"V", "D", "DD", "K">>, s, 6)
      \* (products of two sums of run-time terms take long to compile)
      heavy == a \in {"DD", "X"} /\ b \in {"DD"}
      gs == {1, 2}
      x == RepIn(a, s, 1, 1, IF a = "F" THEN {1} ELSE gs)
      y == RepIn(IF heavy THEN "D" ELSE b, s, 2, 1, gs)
      o(k) == Pick(<<"gp", "op", "lcont", "rcont", "dot", "sp", "rp", "hip">>, s, 740 + k)
      u(k) == Pick(<<"neg", "reverse", "involute", "conjugate">>, s, 750 + k)
      f == Rnd(s, 741)
      pm == Pick(<<"add", "sub">>, s, 742)
  IN [in |-> <<x, y>>,
      steps |-> CASE s % 3 = 0 -> <<St(o(1), <<1, 2>>, <<>>, f), St(u(1), <<2>>, <<>>, f), St(pm, <<4, 2>>, <<>>, 0)>>
                  [] s % 3 = 1 -> <<St(pm, <<1, 2>>, <<>>, f), St(u(1), <<3>>, <<>>, f), St(u(2), <<1>>, <<>>, f)>>
                  [] s % 3 = 2 -> <<St(o(1), <<2, 1>>, <<>>, f), St(u(1), <<1>>, <<>>, f), St(pm, <<1, 4>>, <<>>, f)>>]
=============================================================================
