------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session of a program with the library.  The state holds the registers *)
(* (the multivectors the program has built so far); an action either loads *)
(* an input or performs one API call, whose result is the multivector the  *)
(* algebra prescribes.  Which calls a program makes, on which inputs and in *)
(* which representation, comes from Program(s) (module Profiles), a pure   *)
(* pseudo-random function of the program number s and of Seed; each        *)
(* program is run for several valuations of its run-time inputs.           *)
(*                                                                         *)
(* TLC explores every program x valuation exhaustively and prints, for     *)
(* each complete behaviour, the inputs and the value every call returned.  *)
(* The conformance harness replays exactly that behaviour on the C++ code. *)
(***************************************************************************)
EXTENDS Programs, Json

CONSTANTS Profile, NProg, NVal

VARIABLES prog, val, regs, st
vars == <<prog, val, regs, st>>

Init == /\ prog \in {Program(Profile, s) : s \in 1..NProg}
        /\ val \in 1..NVal
        /\ regs = <<>>
        /\ st = "run"

NIn == Len(prog.in)
Pc == Len(regs) - NIn                    \* calls made so far

Load == /\ st = "run" /\ Len(regs) < NIn
        /\ regs' = Append(regs, InputValue(prog, val, Len(regs) + 1))
        /\ UNCHANGED <<prog, val, st>>

\* One API call. Outside its precondition (division by a null versor, ...), or when its result is too large
\* for TLC's integers, the behaviour ends before the call.
Call == /\ st = "run" /\ Len(regs) >= NIn /\ Pc < Len(prog.steps)
        /\ LET s == prog.steps[Pc + 1]
               A == [k \in 1..Len(s.a) |-> regs[s.a[k]]]
           IN IF Defined(s.op, A, s.p)
              THEN LET r == Apply(s.op, A, s.p)
                   IN IF Size(r) <= (IF Profile \in {"small", "smallexp", "nulls"} THEN 100000 ELSE Limit)
                      THEN regs' = Append(regs, r) /\ UNCHANGED st
                      ELSE st' = "toolarge" /\ UNCHANGED regs
              ELSE st' = "undefined" /\ UNCHANGED regs
        /\ UNCHANGED <<prog, val>>

PlainJson(A) == [d |-> A.d, c |-> SetToSeq({<<b, A.c[b]>> : b \in Supp(A)})]
MvJson(A) == IF "w" \in DOMAIN A THEN [d |-> A.d, c |-> <<>>, w |-> [j \in 1..Len(A.w) |-> IF "t" \in DOMAIN A.w[j] THEN [t |-> A.w[j].t, m |-> PlainJson(A.w[j].m)] ELSE [k |-> A.w[j].k, q |-> A.w[j].q, m |-> PlainJson(A.w[j].m)]]]
             ELSE IF "t" \in DOMAIN A THEN [d |-> 1, c |-> <<>>, t |-> A.t]
             ELSE PlainJson(A)
Finish == /\ st \in {"run", "undefined", "toolarge"}
          /\ st = "run" => Len(regs) = NIn + Len(prog.steps)
          /\ st' = "done"
          /\ UNCHANGED <<prog, val, regs>>
          /\ val = 1 => PrintT("@@" \o ToJson([prog |-> prog.id, in |-> prog.in, steps |-> prog.steps, mode |-> prog.mode]))
          /\ PrintT("@@" \o ToJson([run |-> prog.id, val |-> val, why |-> st, data |-> Data(prog, val),
                                    regs |-> [k \in 1..Len(regs) |-> MvJson(regs[k])]]))

Next == Load \/ Call \/ Finish
Spec == Init /\ [][Next]_vars

\* Registers always hold well formed multivectors in lowest terms.
WellFormed == \A k \in 1..Len(regs) : regs[k].d > 0 /\ DOMAIN regs[k].c = Blades
\* A register never changes once written.
Stable == [][\A k \in 1..Len(regs) : regs'[k] = regs[k]]_vars
=============================================================================
