------------------------------ MODULE WideLaws ------------------------------
(* In the spaces where both are defined, Wide is GA.                        *)
EXTENDS GA
CONSTANTS P, Q, R
W == INSTANCE Wide WITH Ops <- {}, UnOps <- {}, NProg <- 0, Seed <- 0, prog <- <<>>, regs <- <<>>, st <- ""
VARIABLE row
Init == row = 0
Next == row < M - 1 /\ row' = row + 1
Spec == Init /\ [][Next]_row
AsGA(t) == Term(FoldSet(LAMBDA i, acc : acc + Bit(i), 0, t.b), t.k)
\* t is k/d times a blade
Agrees(t, X) == AsGA(t) = Scale(t.d, 1, X)
Same ==
  \A b \in Blades :
    LET x == W!T(2, 1, VecsOf(row))  y == W!T(3, 1, VecsOf(b))  A == Term(row, 2)  B == Term(b, 3)
    IN /\ \A p \in Products : AsGA(W!Bin(p, x, y)) = Product(p, A, B)
       /\ AsGA(W!Un("reverse", x)) = Rev(A) /\ AsGA(W!Un("involute", x)) = Involute(A) /\ AsGA(W!Un("conjugate", x)) = Conjugate(A)
       /\ AsGA(W!Un("normsqr", x)) = NormSqr(A)
       /\ W!HasWInv(x) <=> HasInv(A)
       /\ Agrees(W!Bin2("cp", x, y), Cp(A, B))
       /\ Agrees(W!Bin2("rotor", x, y), Rotor(A, B))
       /\ HasInv(A) => /\ Agrees(W!Bin2("evenv", x, y), EvenVersor(A, B)) /\ Agrees(W!Bin2("oddv", x, y), OddVersor(A, B))
                       /\ Agrees(W!Bin2("igp", y, x), Igp(B, A))
                       /\ Agrees(W!Bin2("project", y, x), Lcont(Lcont(B, Inv(A)), A))
                       /\ Agrees(W!Bin2("reject", y, x), Sub(B, Lcont(Lcont(B, Inv(A)), A)))
       /\ R = 0 => AsGA(W!Un("undual", x)) = Undual(A) /\ AsGA(W!Un("dual", x)) = Dual(A)
=============================================================================
