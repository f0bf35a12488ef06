------------------------------- MODULE Extras -------------------------------
(***************************************************************************)
(* More programs: the constants an algebra offers, copies, visits, text,   *)
(* exponentials, meet and join.                                            *)
(***************************************************************************)
EXTENDS Geometry

(* Profile "constants" (C21): every named constant, on its own and          *)
(* multiplied with others; basis vectors by index.                          *)
ConstantsProgram(s) ==
  LET c1 == Cyc(ConstNames, s)  c2 == Pick(ConstNames, s, 401)
      i == 1 + (s % n)
      f == Rnd(s, 402)
      names == IF Model = "none" THEN <<>> ELSE <<St("vecname", NoArgs, <<BasisNames[i], i>>, 0)>>
  IN [in |-> <<[In("S", <<0>>, <<i>>, 0, 0, <<>>) EXCEPT !.pool = "kc"]>>,
      steps |-> <<St("konst", NoArgs, <<c1>>, 0), St("konst", NoArgs, <<c2>>, 0), St("gp", <<2, 3>>, NoArgs, f), St("sp", <<2, 3>>, NoArgs, f), St("econst", NoArgs, <<i>>, f),
                  St("erun", <<1>>, NoArgs, f), St("sub", <<6, 7>>, NoArgs, 0), St("dims", NoArgs, NoArgs, f), St("allvecs", NoArgs, NoArgs, f), St("pseudo", NoArgs, NoArgs, f)>>
                \o (IF TakesRuntime THEN <<St("gp", <<7, 6>>, NoArgs, f), St("sp", <<7, 2>>, NoArgs, f)>> ELSE <<St("sp", <<6, 2>>, NoArgs, f)>>)
                \o names]

(* Profile "copies" (C15): copies into containers with room for the grades  *)
(* g0..g1, checked copies that must be refused, visits.                     *)
WideGrades(s) == LET g0 == Rnd(s, 411) % 2  g1 == n - (Rnd(s, 412) % 2) IN g0..g1
SomeRange(s, k) == LET a == Rnd(s, k) % (n + 1)  b == Rnd(s, k + 1) % (n + 1) IN MinOf(a, b)..MaxOf(a, b)
Room(op, gs, f) == St(op, <<1>>, <<Min(gs), Max(gs)>>, f)
CopiesProgram(s) ==
  LET kind == s % 10
      f == s \div 10
      rs == SomeRange(s, 413)
      ws == WideGrades(s)
      any == 0..n
      \* inputs with many zeros: some copies into smaller containers lose nothing
      zin == Pool(IF f % 3 = 0 THEN FIn(Min(rs), Max(rs)) ELSE VIn(s, 1, 3, rs), "zero")
      ops(room, src) == <<Room("copyF", room, f), Room("copyF", room, f + 1), Room("refuseF", room, f), St("refuseF", <<1>>, <<Min(room), Max(room), 4 + (f % 9)>>, f)>>
      visits(count) == <<St("visits", <<1>>, <<count>>, f), St("visitstop", <<1>>, <<1>>, f)>> \o (IF count > 1 THEN <<St("visitstop", <<1>>, <<2>>, f)>> ELSE <<>>)
  IN CASE kind \in {0, 1} -> LET x == VIn(s, 1, 1 + (f % 4), ws) IN
             [in |-> <<IF kind = 0 THEN x ELSE [x EXCEPT !.rep = Cyc(<<"Vi", "Vf", "N">>, f)]>>,
              steps |-> <<Room("tcopyF", ws, f), Room("tcopyF", any, f), St("copyX", <<1>>, NoArgs, f)>> \o ops(ws, x) \o visits(Len(x.bl))]
       [] kind = 2 -> LET x == IF f % 2 = 0 THEN KIn(s, 1, 1 + (f % 4), ws) ELSE QIn(s, 1, 1 + (f % 3), ws) IN
             [in |-> <<x>>, steps |-> <<Room("tcopyF", ws, f), St("copyX", <<1>>, NoArgs, f), Room("copyF", any, f)>> \o visits(Len(x.bl))]
       [] kind \in {3, 4, 5} -> LET gs == SomeRange(s, 417) IN
             [in |-> <<zin>>, steps |-> ops(gs, zin) \o visits(Len(zin.bl))]
       [] kind = 6 -> LET gs == IF rs = {0} THEN {0, 1} ELSE IF Min(rs) = n THEN {n - 1, n} ELSE rs
                          x == IF f % 2 = 0 THEN DIn(gs) ELSE UIn(gs) IN
             [in |-> <<x>>, steps |-> <<Room("copyD", gs, f), Room("copyD", gs, f + 1), Room("tcopyD", gs, f), St("copyX", <<1>>, NoArgs, f), St("eachvec", <<1>>, <<0>>, f), St("eachvec", <<1>>, <<1>>, f)>>
                                      \o visits(1)]
       [] kind = 7 -> LET x == VIn(s, 1, 1, any) IN
             [in |-> <<IF f % 2 = 0 THEN x ELSE KIn(s, 1, 1, any)>>, steps |-> <<St("eachvec", <<1>>, <<0>>, f), St("eachvec", <<1>>, <<1>>, f), St("eachvec", <<1>>, <<2>>, f), Room("copyF", any, f)>>]
       [] kind = 8 -> LET x == FIn(Min(rs), Max(rs)) y == VIn(s, 2, 2, any) IN
             [in |-> <<x, y>>, steps |-> <<St("gp", <<1, 2>>, NoArgs, f), [Room("copyF", any, f) EXCEPT !.a = <<3>>], St("op", <<2, 1>>, NoArgs, f), [Room("tcopyF", any, f) EXCEPT !.a = <<5>>],
                                          [Room("refuseF", SomeRange(s, 419), f) EXCEPT !.a = <<5>>]>>]
       [] kind = 9 -> LET x == IF f % 3 = 0 THEN SIn ELSE IF f % 3 = 1 THEN VIn(s, 1, 1, {0}) ELSE KIn(s, 1, 1, {0}) IN
             [in |-> <<x>>, steps |-> (IF f % 3 # 0 THEN <<St("native", <<1>>, NoArgs, f), St("copyX", <<1>>, NoArgs, f)>> ELSE <<>>)
                                      \o <<Room("scopyF", any, f), Room("stcopyF", 0..(f % (n + 1)), f)>>
                                      \o (IF f % 3 # 2 THEN <<Room("srefuseF", SomeRange(s, 421), f)>> ELSE <<>>)]

(* Profile "exp" (C14): exponentials of scalars and blades, and rotors made of them. *)
ExpProgram(s) ==
  LET kind == s % 9
      f == s \div 9
      g1 == 1 + (f % n)                               \* any grade from 1
      flat == IF f % 2 = 0 THEN {1} ELSE {n - 1}      \* grades all of whose elements are blades
      two == n >= 2
      g2 == IF n >= 3 /\ f % 3 = 2 THEN {3} ELSE {2}  \* elements that reversion negates
      x == Pool(VIn(s, 3, 2, IF f % 2 = 0 THEN {1} ELSE All), "nz")
      few(b) == IF f % 2 = 0 THEN Pool(b, "tiny") ELSE b
      one(b0) == LET b == few(b0) IN [in |-> <<b>>, steps |-> <<St("exp", <<1>>, NoArgs, f), St("exp", <<1>>, NoArgs, f + 1), St("expinv", <<1>>, NoArgs, f)>>]
      rot(b0) == LET b == Pool(b0, "tiny") IN [in |-> <<b, x>>, steps |-> <<St("exp", <<1>>, NoArgs, f), St("exprot", <<1, 2>>, NoArgs, f), St("expinv", <<1>>, NoArgs, f), St("expeven", <<1, 2>>, NoArgs, f)>>]
  IN CASE kind = 0 -> one(VIn(s, 1, 1, {g1}))
       [] kind = 1 -> one(VIn(s, 1, 2 + (f % 2), flat))
       [] kind = 2 -> one(IF f % 3 = 0 THEN KIn(s, 1, 1, {g1}) ELSE IF f % 3 = 1 THEN QIn(s, 1, 2, flat) ELSE KIn(s, 1, 2, flat))
       [] kind = 3 -> IF TakesRuntime THEN one(IF f % 3 = 2 THEN UIn({g1}) ELSE DIn({g1})) ELSE one(NIn_(s, 1, 2, flat))
       [] kind = 4 -> one(FIn(IF f % 2 = 0 THEN 1 ELSE n - 1, IF f % 2 = 0 THEN 1 ELSE n - 1))
       [] kind = 5 -> one(IF f % 3 = 0 THEN SIn ELSE IF f % 3 = 1 THEN VIn(s, 1, 1, {0}) ELSE KIn(s, 1, 1, {0}))
       [] kind = 6 -> rot(VIn(s, 1, IF n = 3 /\ g2 = {2} THEN 2 ELSE 1, IF two THEN g2 ELSE {1}))
       [] kind = 7 -> IF two /\ TakesRuntime THEN [rot(IF f % 2 = 0 THEN DIn(g2) ELSE UIn(g2)) EXCEPT !.in[2] = Pool(VIn(s, 3, 1, {1}), "nz"), !.steps = SubSeq(@, 1, 3)] ELSE rot(IF IsOrthogonal THEN KIn(s, 1, 1, IF two THEN g2 ELSE {1}) ELSE VIn(s, 1, 1, IF two THEN g2 ELSE {1}))
       [] kind = 8 -> LET u == Pool(VIn(s, 5, 2, {1}), "tiny")  v == Pool(VIn(s, 6, 2, {1}), "tiny") IN
             [in |-> <<u, v, x>>, steps |-> <<St("op", <<1, 2>>, NoArgs, f), St("exp", <<4>>, NoArgs, f), St("exprot", <<4, 3>>, NoArgs, f), St("expinv", <<4>>, NoArgs, f)>>]

(* Profile "meet" (C13): pairs of blades that share directions or not, are  *)
(* nested, equal or in general position.                                    *)
BladeIn(rep, sh, k) == In(rep, Sorted(BladesOf({k})), <<sh>> \o [j \in 1..k |-> M - 1], k, k, <<>>)
\* blades spanned by vectors of given coordinate subspaces
PartIn(rep, sh, masks) ==
  LET k == Len(masks)
      bl == {b \in Blades : Grade[b] = k /\ \E q \in [1..k -> Vecs] : (\A j \in 1..k : (Bit(q[j]) & masks[j]) # 0) /\ {q[j] : j \in 1..k} = VecsOf(b)}
  IN In(rep, Sorted(bl), <<sh>> \o masks, k, k, <<>>)
MeetSteps(s, f) ==
  <<St("mj", <<1, 2>>, NoArgs, f), St("meetof", <<3, 1, 2>>, NoArgs, f), St("joinof", <<3, 1, 2>>, NoArgs, f), St("mjcons", <<3, 1, 2>>, NoArgs, f)>>
FastSteps(s, f) ==
  <<St("fmj", <<1, 2>>, NoArgs, f), St("meetof", <<3, 1, 2>>, NoArgs, f), St("joinof", <<3, 1, 2>>, NoArgs, f), St("mjcons", <<3, 1, 2>>, NoArgs, f), St("fjoin", <<1, 2>>, NoArgs, f)>>
GradePairs == SetToSortSeq({q \in (0..n) \X (0..n) : TRUE}, LAMBDA x, y : x[1] * 8 + x[2] < y[1] * 8 + y[2])
MeetProgram(s) ==
  LET f == s \div 4
      q == Cyc(GradePairs, (s * 7) \div 3)
      sh == Rnd(s, 431) % (MinOf(q[1], q[2]) + 1)
      a == BladeIn(IF f % 2 = 0 THEN "B" ELSE "BV", sh, q[1])
      b == BladeIn(IF f % 3 = 0 THEN "BV" ELSE IF f % 3 = 1 THEN "BS" ELSE "B", sh, q[2])
      steps == CASE s % 4 \in {0, 1} -> MeetSteps(s, f) [] s % 4 = 2 -> FastSteps(s, f) [] s % 4 = 3 -> <<St("plunge", <<1, 2>>, NoArgs, f), St("fplunge", <<1, 2>>, NoArgs, f)>>
  IN [in |-> <<a, b>>, steps |-> steps]
\* larger spaces: blades with few terms
PartProgram(s) ==
  LET f == s \div 3
      masks == Cyc(<<<<3, (M - 1) - 3>>, <<5, (M - 1) - 5>>, <<1, 6>>, <<6, (M - 1) - 6>>, <<1, 2, 12>>, <<6, 8>>>>, f)
      masks2 == IF s % 3 = 2 THEN Cyc(<<<<3, 12>>, <<M - 1>>, <<5, 10>>, <<9, 6>>, <<1, 6, 8>>>>, Rnd(s, 433)) ELSE masks
      sh == Rnd(s, 431) % (MinOf(Len(masks), Len(masks2)) + 1)
      a == PartIn("BV", sh, masks)
      b == PartIn("BV", sh, masks2)
  IN [in |-> <<a, b>>, steps |-> IF s % 3 = 2 THEN FastSteps(s, f) ELSE MeetSteps(s, f)]
(* Profile "outside" (C05): deferred expressions with values that are not    *)
(* arguments of their context: one of the inputs (the one that the number of *)
(* the program tells, or none), numbers, default tolerances.                 *)
OutsideProgram(s) ==
  LET t == s \div 4
      f(k) == Rnd(s, 240 + k)
      g == <<Rnd(s, 249) % (n + 1)>>
      flat == IF t % 2 = 0 THEN {1} ELSE {n - 1}
      b == Pool(VIn(s, 1, 1 + (t % 2), flat), "tiny")
      w == VIn(s, 2, 2, All)
      z == VIn(s, 3, 1, All)
      pr == Pick(<<"gp", "op", "lcont", "sp", "add">>, s, 248)
  IN CASE s % 4 < 2 -> LazyProgram(t)
       [] s % 4 = 2 -> [in |-> <<IF TakesRuntime /\ t % 3 = 2 THEN DIn(1..2) ELSE VIn(s, 1, 2, All), w, z>>,
                        steps |-> <<St("takegrade", <<1>>, g, f(1)), St(pr, <<4, 2>>, <<>>, f(2)), St("takegrade", <<2>>, g, f(3)), St(pr, <<3, 2>>, <<>>, f(4)), St("takelargest", <<7>>, <<>>, f(5)), St(pr, <<8, IF TakesRuntime /\ t % 3 = 2 THEN 2 ELSE 1>>, <<>>, f(6))>>
                                   \o (IF t % 3 = 0 THEN <<St("dp", <<1, 2>>, <<>>, f(7))>> ELSE <<>>)]
       [] s % 4 = 3 -> [in |-> <<b, w, z>>, steps |-> <<St("neg", <<1>>, <<>>, 0), St("add", <<4, 1>>, <<>>, 0), St("sub", <<1, 5>>, <<>>, 0), St("gp", <<2, 3>>, <<>>, f(2)), St(pr, <<7, 1>>, <<>>, f(3)),
                                                         St("exp", <<1>>, NoArgs, f(1)), St("exp", <<6>>, NoArgs, f(3))>>]
=============================================================================
