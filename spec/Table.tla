------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* The multiplication tables of an algebra, row by row.  A behaviour walks *)
(* through the basis blades a of one product; each step is the family of   *)
(* calls a (product) b for every basis blade b, and prints the results the *)
(* algebra prescribes, for the conformance harness to replay on the code.  *)
(***************************************************************************)
EXTENDS GA, Json

CONSTANT Ops                   \* the products to tabulate

VARIABLES op, row
vars == <<op, row>>

RowOf(p, a) == TabOf(p)[a]
Emit(p, a) == PrintT("@@" \o ToJson([op |-> p, a |-> a, row |->
                 [k \in 1..M |-> SetToSeq({<<t[1], t[2]>> : t \in RowOf(p, a)[k - 1]})]]))

Init == op \in Ops /\ row = -1
Tabulate == /\ row < M - 1
            /\ row' = row + 1
            /\ Emit(op, row')
            /\ UNCHANGED op
Next == Tabulate
Spec == Init /\ [][Next]_vars

\* grade structure every row must have
GradesRight ==
  row >= 0 =>
    \A b \in Blades : \A t \in RowOf(op, row)[b] :
      LET r == Grade[row]  s == Grade[b]  g == Grade[t[1]] IN
      CASE op = "gp" -> g >= Abs(r - s) /\ g <= MinOf(r + s, 2 * n - r - s) /\ (g - r - s) % 2 = 0
        [] op = "op" -> g = r + s /\ row & b = 0
        [] op = "rp" -> g = r + s - n
        [] op = "dot" -> g = Abs(r - s)
        [] op = "hip" -> g = Abs(r - s) /\ r > 0 /\ s > 0
        [] op = "lcont" -> g = s - r
        [] op = "rcont" -> g = r - s
        [] op = "sp" -> g = 0 /\ r = s
=============================================================================
