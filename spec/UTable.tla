------------------------------- MODULE UTable -------------------------------
(***************************************************************************)
(* The sign changes of an algebra, blade by blade, and the axioms they     *)
(* satisfy on every pair of basis blades.                                  *)
(***************************************************************************)
EXTENDS GA, Json

CONSTANT Ops                   \* the operations to tabulate

VARIABLES op, row
vars == <<op, row>>

Of(o, A) == CASE o = "reverse" -> Rev(A) [] o = "involute" -> Involute(A) [] o = "conjugate" -> Conjugate(A)
SignOf(o, b) == Of(o, Term(b, 1)).c[b]
Init == op \in Ops /\ row = -1
Tabulate == /\ row < M - 1
            /\ row' = row + 1
            /\ UNCHANGED op
            /\ PrintT("@@" \o ToJson([op |-> op, a |-> row', row |-> <<<<<<row', SignOf(op, row')>>>>>>]))
Next == Tabulate
Spec == Init /\ [][Next]_vars

\* an involution; the grade involution is an automorphism, the others are anti-automorphisms; conjugation composes them
Axioms ==
  row >= 0 =>
    LET A == Term(row, 1) IN
      /\ Of(op, Of(op, A)) = A
      /\ op = "conjugate" => Of(op, A) = Rev(Involute(A)) /\ Of(op, A) = Involute(Rev(A))
      /\ \A b \in Blades : LET B == Term(b, 1) IN
           Of(op, Gp(A, B)) = IF op = "involute" THEN Gp(Of(op, A), Of(op, B)) ELSE Gp(Of(op, B), Of(op, A))
=============================================================================
