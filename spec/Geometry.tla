------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Programs that work with the models of geometry: they build points,      *)
(* vectors, flats, rounds and tangents from coordinates and ask for their  *)
(* parameters (Models).                                                    *)
(***************************************************************************)
EXTENDS Profiles

Upto(a, b) == [j \in 1..(b - a + 1) |-> a + j - 1]         \* <<a, a + 1, ..., b>>

\* cnt coordinates: run-time numbers, or compile-time constants, or some of each
Coordinates(s, k, cnt) ==
  LET kind == Rnd(s, k) % 4 IN
  [j \in 1..cnt |-> IF kind = 0 \/ (kind = 1 /\ Rnd(s, k + j) % 2 = 0) THEN In("K", <<0>>, <<(Rnd(s, k + 50 + j) % 5) - 2>>, 0, 0, <<>>)
                    ELSE Pool(SIn, "tiny")]
Numbers(cnt) == [j \in 1..cnt |-> Pool(SIn, "tiny")]       \* iterators need numbers of the same type
NiIn == IF Model = "minkowski" THEN In("K", <<Bit(n - 1), Bit(n)>>, <<1, 1>>, 0, 0, <<>>) ELSE In("K", <<Bit(n)>>, <<1>>, 0, 0, <<>>)
NoArgs == <<>>

\* inputs: groups of coordinates of the space that is modelled; GroupOf(j) are the registers of the j-th group
GroupOf(j) == Upto((j - 1) * Base + 1, j * Base)
Three(s) == Coordinates(s, 301, Base) \o Coordinates(s, 311, Base) \o Coordinates(s, 321, Base)
Two(s) == Coordinates(s, 301, Base) \o Coordinates(s, 311, Base)

(* Profile "flats" (C16).                                                   *)
FlatParams(x, f) == <<St("hdir", <<x>>, NoArgs, f), St("hmom", <<x>>, NoArgs, f + 1), St("hsup", <<x>>, NoArgs, f + 1), St("husp", <<x>>, NoArgs, f)>>
FlatsProgram(s) ==
  LET which == s % 8
      f == s \div 8
      N3 == 3 * Base  N2 == 2 * Base
  IN CASE which = 0 -> [in |-> Two(s), steps |-> <<St("point", GroupOf(1), NoArgs, f), St("evec", GroupOf(2), NoArgs, f), St("op", <<N2 + 1, N2 + 2>>, NoArgs, f)>> \o FlatParams(N2 + 3, f)]
       [] which = 1 -> [in |-> Two(s), steps |-> <<St("point", GroupOf(1), NoArgs, f), St("point", GroupOf(2), NoArgs, f + 1), St("op", <<N2 + 1, N2 + 2>>, NoArgs, f)>> \o FlatParams(N2 + 3, f)]
       [] which = 2 -> [in |-> Three(s), steps |-> <<St("point", GroupOf(1), NoArgs, f), St("point", GroupOf(2), NoArgs, f + 1), St("evec", GroupOf(3), NoArgs, f), St("op", <<N3 + 1, N3 + 2>>, NoArgs, f),
                                                   St("op", <<N3 + 4, N3 + 3>>, NoArgs, f)>> \o FlatParams(N3 + 5, f)]
       [] which = 3 -> [in |-> Three(s), steps |-> <<St("point", GroupOf(1), NoArgs, f), St("evec", GroupOf(2), NoArgs, f + 1), St("evec", GroupOf(3), NoArgs, f), St("op", <<N3 + 1, N3 + 2>>, NoArgs, f),
                                                   St("htrans", <<N3 + 3, N3 + 4>>, NoArgs, f), St("hdir", <<N3 + 5>>, NoArgs, f), St("hsup", <<N3 + 5>>, NoArgs, f + 1)>>]
       [] which = 4 -> LET x == Pick(<<Pool(VIn(s, 1, n, {1}), "nz"), Pool(VIn(s, 1, n, {n - 1}), "nz"), FIn(1, 1), NIn_(s, 1, n, {1}), KIn(s, 1, n, {1}), KIn(s, 1, n, {n - 1})>>, f, 331)
                       IN [in |-> <<x>>, steps |-> FlatParams(1, f)]
       [] which = 5 -> [in |-> Numbers(Base), steps |-> <<St("pointit", GroupOf(1), NoArgs, f), St("evecit", GroupOf(1), NoArgs, f + 1), St("sub", <<Base + 1, Base + 2>>, NoArgs, f), St("op", <<Base + 1, Base + 2>>, NoArgs, f)>>
                                                     \o FlatParams(Base + 4, f)]
       [] which = 6 -> [in |-> Coordinates(s, 301, n), steps |-> <<St("vec", Upto(1, n), NoArgs, f)>> \o FlatParams(n + 1, f)]
       [] which = 7 -> [in |-> Numbers(n) \o <<Pool(SIn, "nz")>>, steps |-> <<St("vecit", Upto(1, n), NoArgs, f), St("point", Upto(1, Base), NoArgs, f), St("smul", <<n + 3, n + 1>>, NoArgs, f), St("husp", <<n + 4>>, NoArgs, f),
                                                     St("hsup", <<n + 4>>, NoArgs, f), St("op", <<n + 2, n + 3>>, NoArgs, f), St("hdir", <<n + 7>>, NoArgs, f), St("hsup", <<n + 7>>, NoArgs, f)>>]

(* Profile "rounds" (C17, C18).                                             *)
PrimalRound(x, f) == <<St("prdir", <<x>>, NoArgs, f), St("prloc", <<x>>, NoArgs, f + 1), St("prsize", <<x>>, NoArgs, f)>>
DualRound(x, f) == <<St("drdir", <<x>>, NoArgs, f), St("drloc", <<x>>, NoArgs, f + 1), St("drsize", <<x>>, NoArgs, f)>>
PrimalFlat(x, f) == <<St("pfdir", <<x>>, NoArgs, f), St("pfloc", <<x>>, NoArgs, f + 1)>>
DualFlat(x, f) == <<St("dfdir", <<x>>, NoArgs, f), St("dfloc", <<x>>, NoArgs, f + 1)>>
PrimalTangent(x, f) == <<St("ptdir", <<x>>, NoArgs, f), St("ptloc", <<x>>, NoArgs, f + 1)>>
DualTangent(x, f) == <<St("dtdir", <<x>>, NoArgs, f), St("dtloc", <<x>>, NoArgs, f + 1)>>
RoundsProgram(s) ==
  LET which == s % 11
      f == s \div 11
      B == Base  N3 == 3 * Base  N2 == 2 * Base
  IN CASE which = 0 -> [in |-> Two(s), steps |-> <<St("point", GroupOf(1), NoArgs, f), St("point", GroupOf(2), NoArgs, f + 1), St("sp", <<N2 + 1, N2 + 2>>, NoArgs, f), St("normsqr", <<N2 + 1>>, NoArgs, f),
                                                   St("op", <<N2 + 1, N2 + 2>>, NoArgs, f)>> \o PrimalRound(N2 + 5, f)]
       [] which = 1 -> [in |-> Coordinates(s, 301, B) \o <<Pool(SIn, "tiny"), NiIn>>, steps |-> <<St("point", GroupOf(1), NoArgs, f), St("smul", <<B + 2, B + 1>>, NoArgs, f), St("sub", <<B + 3, B + 4>>, NoArgs, f)>>
                                                   \o DualRound(B + 5, f) \o DualRound(B + 3, f + 1)]
       [] which = 2 -> [in |-> Two(s), steps |-> <<St("point", GroupOf(1), NoArgs, f), St("point", GroupOf(2), NoArgs, f + 1), St("op", <<N2 + 1, N2 + 2>>, NoArgs, f), St("dual", <<N2 + 3>>, NoArgs, f)>> \o DualRound(N2 + 4, f)]
       [] which = 3 -> IF B = 1 THEN [in |-> <<Pool(VIn(s, 1, n, {2}), "tiny")>>, steps |-> PrimalRound(1, f)]
                       ELSE [in |-> Three(s), steps |-> <<St("point", GroupOf(1), NoArgs, f), St("point", GroupOf(2), NoArgs, f + 1), St("point", GroupOf(3), NoArgs, f), St("op", <<N3 + 1, N3 + 2>>, NoArgs, f),
                                                   St("op", <<N3 + 4, N3 + 3>>, NoArgs, f)>> \o PrimalRound(N3 + 5, f)]
       [] which = 4 -> [in |-> Two(s) \o <<NiIn>>, steps |-> <<St("point", GroupOf(1), NoArgs, f), St(IF f % 2 = 0 THEN "evec" ELSE "point", GroupOf(2), NoArgs, f), St("op", <<N2 + 2, N2 + 3>>, NoArgs, f),
                                                   St("op", <<N2 + 4, N2 + 1>>, NoArgs, f)>> \o PrimalFlat(N2 + 5, f)]
       [] which = 5 -> [in |-> Coordinates(s, 301, B) \o <<Pool(SIn, "tiny"), NiIn>>, steps |-> <<St("evec", GroupOf(1), NoArgs, f), St("smul", <<B + 2, B + 1>>, NoArgs, f), St("add", <<B + 3, B + 4>>, NoArgs, f)>>
                                                   \o DualFlat(B + 5, f)]
       [] which = 6 -> [in |-> Two(s) \o <<NiIn>>, steps |-> <<St("point", GroupOf(1), NoArgs, f), St("evec", GroupOf(2), NoArgs, f), St("op", <<N2 + 3, N2 + 2>>, NoArgs, f), St("op", <<N2 + 4, N2 + 1>>, NoArgs, f),
                                                   St("dual", <<N2 + 5>>, NoArgs, f)>> \o DualFlat(N2 + 6, f)]
       [] which = 7 -> [in |-> Two(s) \o <<NiIn>>, steps |-> <<St("point", GroupOf(1), NoArgs, f), St("evec", GroupOf(2), NoArgs, f), St("op", <<N2 + 3, N2 + 2>>, NoArgs, f), St("lcont", <<N2 + 1, N2 + 4>>, NoArgs, f),
                                                   St("op", <<N2 + 1, N2 + 5>>, NoArgs, f)>> \o PrimalTangent(N2 + 6, f)]
       [] which = 8 -> [in |-> Two(s) \o <<NiIn>>, steps |-> <<St("point", GroupOf(1), NoArgs, f), St("evec", GroupOf(2), NoArgs, f), St("op", <<N2 + 3, N2 + 2>>, NoArgs, f), St("lcont", <<N2 + 1, N2 + 4>>, NoArgs, f),
                                                   St("op", <<N2 + 1, N2 + 5>>, NoArgs, f), St("dual", <<N2 + 6>>, NoArgs, f)>> \o DualTangent(N2 + 7, f)]
       [] which = 9 -> LET x == Pick(<<Pool(VIn(s, 1, n, {1}), "tiny"), Pool(FIn(1, 1), "tiny"), NIn_(s, 1, n, {1}), KIn(s, 1, n, {1})>>, f, 331)
                       IN [in |-> <<x>>, steps |-> DualRound(1, f)]
       [] which = 10 -> [in |-> Numbers(B), steps |-> <<St("pointit", GroupOf(1), NoArgs, f), St("evecit", GroupOf(1), NoArgs, f + 1), St("point", GroupOf(1), NoArgs, f), St("sub", <<B + 1, B + 3>>, NoArgs, f),
                                                       St("sp", <<B + 1, B + 2>>, NoArgs, f), St("sp", <<B + 3, B + 1>>, NoArgs, f)>>]

(* Profile "project" (C19).                                                 *)
ProjectProgram(s) ==
  LET rep == Cyc(<<"V", "N", "K", "F", "V">>, s)
      x == RepIn(rep, s, 1, 3, IF rep = "F" THEN {1} ELSE All)
      f == s \div 5
      which == f % 4
  IN CASE which = 0 -> [in |-> <<x, Pool(VIn(s, 2, 1, 1..n), "nz")>>, steps |-> <<St("project", <<1, 2>>, NoArgs, f), St("reject", <<1, 2>>, NoArgs, f + 1), St("add", <<3, 4>>, NoArgs, 0)>>]
       [] which = 1 -> [in |-> <<x, VecIn(s, 2, 2)>>, steps |-> <<St("project", <<1, 2>>, NoArgs, f), St("reject", <<1, 2>>, NoArgs, f + 1), St("project", <<3, 2>>, NoArgs, f), St("op", <<3, 2>>, NoArgs, 0)>>]
       [] which = 2 -> [in |-> <<x, VecIn(s, 2, 2), VecIn(s, 3, 2)>>, steps |-> <<St("op", <<2, 3>>, NoArgs, 0), St("project", <<1, 4>>, NoArgs, f), St("reject", <<1, 4>>, NoArgs, f + 1)>>]
       [] which = 3 -> [in |-> <<x, UnitK(s, 2, 1, 1..n)>>, steps |-> <<St("project", <<1, 2>>, NoArgs, f), St("reject", <<1, 2>>, NoArgs, f + 1), St("lcont", <<4, 2>>, NoArgs, 0), St("sp", <<3, 4>>, NoArgs, 0)>>]

(* Profile "vectors" (C16 to C19): every way to build a vector, in every model. *)
VectorsProgram(s) ==
  LET which == s % 4  f == s \div 4  hasE == Model # "none" IN
  CASE which = 0 -> [in |-> Coordinates(s, 301, n), steps |-> <<St("vec", Upto(1, n), NoArgs, f), St("normsqr", <<n + 1>>, NoArgs, f)>>]
    [] which = 1 -> [in |-> Numbers(n), steps |-> <<St("vecit", Upto(1, n), NoArgs, f), St("vec", Upto(1, n), NoArgs, f), St("sub", <<n + 1, n + 2>>, NoArgs, 0)>>]
    [] which = 2 -> [in |-> Coordinates(s, 301, Base), steps |-> <<St(IF hasE THEN "evec" ELSE "vec", Upto(1, Base), NoArgs, f), St("normsqr", <<Base + 1>>, NoArgs, f)>>]
    [] which = 3 -> [in |-> Numbers(Base), steps |-> <<St(IF hasE THEN "evecit" ELSE "vecit", Upto(1, Base), NoArgs, f), St("normsqr", <<Base + 1>>, NoArgs, f)>>]

(* Profile "planes" (C19): reflections of the plane-based model and what they compose to. *)
PlanesProgram(s) ==
  LET rep == Cyc(<<"V", "N", "F", "K">>, s)
      f == s \div 4
      x == RepIn(rep, s, 1, 3, IF rep = "F" THEN {1} ELSE All)
      a == Pool(VIn(s, 2, n, {1}), "tiny")  b == Pool(VIn(s, 3, n, {1}), "tiny")
  IN IF f % 2 = 0 THEN [in |-> <<x, a, b>>, steps |-> <<St("oddv", <<2, 1>>, NoArgs, f), St("oddv", <<3, 4>>, NoArgs, f), St("gp", <<3, 2>>, NoArgs, 0), St("evenv", <<6, 1>>, NoArgs, f)>>]
     ELSE [in |-> <<VIn(s, 1, 3, {1}), a, VIn(s, 4, 3, {1})>>, steps |-> <<St("oddv", <<2, 1>>, NoArgs, f), St("oddv", <<2, 3>>, NoArgs, f), St("sp", <<4, 5>>, NoArgs, f), St("sp", <<1, 3>>, NoArgs, f), St("oddv", <<2, 4>>, NoArgs, f)>>]
=============================================================================
