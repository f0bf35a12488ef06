-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Spaces of many dimensions (up to the 63 the library allows), where the   *)
(* tables of GA would not fit: multiples of single basis blades, over       *)
(* signed metrics.  A blade is a set of vectors, a term [k, d, b] is        *)
(* (k/d) e_b.  WideLaws checks that, where both apply, this is GA.          *)
(*                                                                         *)
(* The state machine is that of Session: the inputs of a program are        *)
(* loaded, then every call writes one register.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json

CONSTANTS P, Q, R,             \* the signature
          Ops, UnOps,          \* the calls to make
          NProg, Seed

N == P + Q + R
Vs == 1..N
Sq(i) == IF i <= P THEN 1 ELSE IF i <= P + Q THEN -1 ELSE 0
Sign(k) == IF k % 2 = 1 THEN -1 ELSE 1
Full == Vs

T(k, d, b) == IF k = 0 THEN [k |-> 0, d |-> 1, b |-> {}] ELSE [k |-> k, d |-> d, b |-> b]
Nil == T(0, 1, {})
Gr(x) == Cardinality(x.b)
\* the sign of the permutation that sorts the vectors of a followed by those of b
Shuffle(a, b) == Sign(Cardinality({p \in a \X b : p[1] > p[2]}))
Squares(c) == FoldSet(LAMBDA i, acc : acc * Sq(i), 1, c)
WGp(x, y) == T(x.k * y.k * Shuffle(x.b, y.b) * Squares(x.b \cap y.b), x.d * y.d, (x.b \ y.b) \cup (y.b \ x.b))
OfGr(x, g) == IF Gr(x) = g THEN x ELSE Nil
Dist(x, y) == IF Gr(x) > Gr(y) THEN Gr(x) - Gr(y) ELSE Gr(y) - Gr(x)
WRp(x, y) ==
  IF x.b \cup y.b # Full THEN Nil
  ELSE LET c == x.b \cap y.b  r == y.b \ c IN T(x.k * y.k * Shuffle(c, r) * Shuffle(x.b, r), x.d * y.d, c)
Bin(op, x, y) ==
  IF x.k = 0 \/ y.k = 0 THEN Nil
  ELSE CASE op = "gp" -> WGp(x, y)
         [] op = "op" -> OfGr(WGp(x, y), Gr(x) + Gr(y))
         [] op = "rp" -> WRp(x, y)
         [] op = "dot" -> OfGr(WGp(x, y), Dist(x, y))
         [] op = "hip" -> IF Gr(x) = 0 \/ Gr(y) = 0 THEN Nil ELSE OfGr(WGp(x, y), Dist(x, y))
         [] op = "lcont" -> IF Gr(x) <= Gr(y) THEN OfGr(WGp(x, y), Gr(y) - Gr(x)) ELSE Nil
         [] op = "rcont" -> IF Gr(x) >= Gr(y) THEN OfGr(WGp(x, y), Gr(x) - Gr(y)) ELSE Nil
         [] op = "sp" -> OfGr(WGp(x, y), 0)
Turn(x, k) == T(x.k * Sign(k), x.d, x.b)
WRev(x) == Turn(x, (Gr(x) * (Gr(x) - 1)) \div 2)
WNormSqr(x) == Bin("sp", x, WRev(x))
\* the inverse of a number times a blade whose square is not zero
HasWInv(x) == x.k # 0 /\ WNormSqr(x).k # 0
WInv(x) == LET q == WNormSqr(x)  r == WRev(x) IN T(r.k * q.d * (IF q.k < 0 THEN -1 ELSE 1), r.d * (IF q.k < 0 THEN -q.k ELSE q.k), r.b)
Ps == T(1, 1, Full)
\* products with inverses
WProject(x, y) == Bin("lcont", Bin("lcont", x, WInv(y)), y)
Bin2(op, x, y) ==
  CASE op = "igp" -> WGp(x, WInv(y))
    [] op = "evenv" -> WGp(WGp(x, y), WInv(x))
    [] op = "oddv" -> WGp(WGp(x, Turn(y, Gr(y))), WInv(x))
    [] op = "rotor" -> WGp(WGp(x, y), WRev(x))
    [] op = "project" -> WProject(x, y)
    \* single blades either lie in the blade projected on or have no part in it
    [] op = "reject" -> IF WProject(x, y).k = 0 THEN x ELSE Nil
    [] op = "cp" -> IF WGp(x, y) = WGp(y, x) THEN Nil ELSE WGp(x, y)
    [] op = "dp" -> WGp(x, y)
    [] OTHER -> Bin(op, x, y)
CanBin(op, x, y, rx, ry) ==
  CASE op \in {"igp", "project", "reject"} -> x.k # 0 /\ HasWInv(y)
    [] op = "evenv" -> y.k # 0 /\ HasWInv(x) /\ Gr(x) % 2 = 0
    [] op = "oddv" -> y.k # 0 /\ HasWInv(x) /\ Gr(x) % 2 = 1
    [] op = "rotor" -> y.k # 0 /\ x.k # 0
    [] op = "cp" -> {rx, ry} \cap {"D", "U"} = {} /\ x.k # 0 /\ y.k # 0
    [] op = "dp" -> x.k # 0 /\ y.k # 0
    [] OTHER -> TRUE
Un(op, x) ==
  CASE op = "neg" -> Turn(x, 1)
    [] op = "reverse" -> WRev(x)
    [] op = "involute" -> Turn(x, Gr(x))
    [] op = "conjugate" -> Turn(x, (Gr(x) * (Gr(x) + 1)) \div 2)
    [] op = "normsqr" -> WNormSqr(x)
    [] op = "inv" -> WInv(x)
    [] op = "dual" -> Bin("lcont", x, WInv(Ps))
    [] op = "undual" -> Bin("lcont", x, Ps)
    [] op = "grade" -> T(Gr(x), 1, {})
    [] op = "takegrade" -> x
    [] op = "takelargest" -> x
    [] op = "visit" -> x
Can(op, x) ==
  CASE op = "inv" -> HasWInv(x)
    [] op \in {"dual", "undual"} -> R = 0 /\ x.k # 0
    [] op \in {"grade", "takelargest", "takegrade"} -> x.k # 0
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Programs.                                                                *)
Rnd(s, k) ==
  LET p == 32749
      x0 == (s * 613 + k * 7877 + Seed * 331 + N * 1009) % p
      x1 == (x0 * x0 + 12345 + k) % p
      x2 == (x1 * 25173 + s) % p
  IN (x2 * x2 + 3 * x1 + 7) % p
Cyc(seq, s) == seq[1 + (s % Len(seq))]
Some(s, k, cnt) == {1 + (Rnd(s, k + 5 * j) % N) : j \in 1..cnt}
High(s, k, cnt) == {IF N <= 8 THEN 1 + (Rnd(s, k + 5 * j) % N) ELSE N - (Rnd(s, k + 5 * j) % 8) : j \in 1..cnt}
Blade(s, k) ==
  CASE Rnd(s, k) % 6 = 0 -> Some(s, k + 1, 3)
    [] Rnd(s, k) % 6 = 1 -> Some(s, k + 1, 1) \cup High(s, k + 2, 2)
    [] Rnd(s, k) % 6 = 2 -> Some(s, k + 1, 5)
    [] Rnd(s, k) % 6 = 3 -> High(s, k + 1, 1)
    [] Rnd(s, k) % 6 = 4 -> Full \ Some(s, k + 1, 2)
    [] Rnd(s, k) % 6 = 5 -> {N} \cup Some(s, k + 1, 2)
\* the second operand is chosen so that the product often does not vanish
Partner(op, s, k, a) ==
  LET c == Blade(s, k)
  IN CASE s % 5 = 0 -> c
       [] op = "op" -> c \ a
       [] op = "rp" -> (Full \ a) \cup Some(s, k + 1, 2)
       [] op = "lcont" -> a \cup c
       [] op = "rcont" -> a \cap c
       [] op \in {"dot", "hip"} -> IF s % 2 = 0 THEN a \cup c ELSE a \cap c
       [] op = "sp" -> a
       [] op \in {"project", "reject"} -> IF s % 2 = 0 THEN a \cup c ELSE c
       [] OTHER -> c \cup {i \in a : Rnd(s, k + 7 * i) % 2 = 0}
Reps == <<"V", "D", "K", "U", "D", "V">>
Input(s, k, b, rep) ==
  LET v == 1 + (Rnd(s, k) % 3)  w == IF Rnd(s, k + 1) % 2 = 0 THEN v ELSE -v
      g == Cardinality(b)  lo == IF Rnd(s, k + 2) % 2 = 0 /\ g > 0 THEN g - 1 ELSE g  hi == IF g = 0 \/ (Rnd(s, k + 3) % 2 = 0 /\ g < N) THEN g + 1 ELSE g    \* a blade known to be a scalar is not known at run time only
  IN [rep |-> rep, k |-> IF rep = "U" THEN 1 ELSE w, b |-> b, g0 |-> lo, g1 |-> hi]
OpSeq == SetToSeq(Ops)
UnSeq == SetToSeq(UnOps)
Program(s) ==
  LET o == IF Ops = {} THEN "gp" ELSE Cyc(OpSeq, s)
      o2 == IF Ops = {} THEN "gp" ELSE OpSeq[1 + (Rnd(s, 11) % Len(OpSeq))]
      a == Blade(s, 20)  b == Partner(o, s, 40, a)  c == Blade(s, 60)
      \* products of two blades known at run time only have blades of any grade: one of them is fixed in most programs
      ra == Cyc(Reps, s \div 2)  rb == Cyc(Reps, s \div 3)
      u(j) == UnSeq[1 + ((s + j * (IF Len(UnSeq) % 3 = 0 THEN 4 ELSE 3)) % Len(UnSeq))]
      St(op, args) == [op |-> op, a |-> args]
      bins == IF Ops = {} THEN <<>> ELSE <<St(o, <<1, 2>>), St(o, <<2, 1>>), St(o2, <<1, 3>>)>>
      uns == IF UnOps = {} THEN <<>> ELSE <<St(u(0), <<1>>), St(u(1), <<2>>), St(u(2), <<1>>), St(u(3), <<3>>)>>
  IN [id |-> s, in |-> <<Input(s, 80, a, ra), Input(s, 90, b, rb), Input(s, 100, c, "V")>>, steps |-> bins \o uns]

VARIABLES prog, regs, st
vars == <<prog, regs, st>>
Init == prog \in {Program(s) : s \in 1..NProg} /\ regs = <<>> /\ st = "run"
NIn == Len(prog.in)
Load == /\ st = "run" /\ Len(regs) < NIn
        /\ LET x == prog.in[Len(regs) + 1] IN regs' = Append(regs, T(x.k, 1, x.b))
        /\ UNCHANGED <<prog, st>>
Call == /\ st = "run" /\ Len(regs) >= NIn /\ Len(regs) < NIn + Len(prog.steps)
        /\ LET s == prog.steps[Len(regs) - NIn + 1]
           IN regs' = Append(regs, IF Len(s.a) = 2
                                   THEN IF CanBin(s.op, regs[s.a[1]], regs[s.a[2]], prog.in[s.a[1]].rep, prog.in[s.a[2]].rep) THEN Bin2(s.op, regs[s.a[1]], regs[s.a[2]]) ELSE [k |-> 0, d |-> 0, b |-> {}]
                                   ELSE IF Can(s.op, regs[s.a[1]]) THEN Un(s.op, regs[s.a[1]]) ELSE [k |-> 0, d |-> 0, b |-> {}])    \* d = 0: not called
        /\ UNCHANGED <<prog, st>>
Finish == /\ st = "run" /\ Len(regs) = NIn + Len(prog.steps)
          /\ st' = "done" /\ UNCHANGED <<prog, regs>>
          /\ PrintT("@@" \o ToJson([id |-> prog.id, in |-> [j \in 1..NIn |-> [prog.in[j] EXCEPT !.b = SetToSeq(@)]], steps |-> prog.steps,
                                    regs |-> [j \in 1..Len(regs) |-> [regs[j] EXCEPT !.b = SetToSeq(@)]]]))
Next == Load \/ Call \/ Finish
Spec == Init /\ [][Next]_vars

\* what the products have in common in every metric
WellFormed == \A j \in 1..Len(regs) : regs[j].b \subseteq Vs /\ (regs[j].k = 0 => regs[j].b = {})
Associative ==
  Len(regs) >= NIn =>
    LET x == regs[1]  y == regs[2]  z == regs[3] IN
      /\ WGp(WGp(x, y), z) = WGp(x, WGp(y, z))
      /\ Bin("op", Bin("op", x, y), z) = Bin("op", x, Bin("op", y, z))
      /\ WRp(WRp(x, y), z) = WRp(x, WRp(y, z))
      /\ WRev(WGp(x, y)) = WGp(WRev(y), WRev(x))
      /\ Bin("lcont", Bin("op", x, y), z) = Bin("lcont", x, Bin("lcont", y, z))
      /\ HasWInv(x) => LET one == WGp(x, WInv(x)) IN one.b = {} /\ one.k = one.d
=============================================================================
