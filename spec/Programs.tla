------------------------------ MODULE Programs ------------------------------
(* All profiles of programs.                                               *)
EXTENDS Tolerances

Program(profile, s) ==
  LET body == CASE profile = "products" -> ProductsProgram(s)
                [] profile = "signs" -> SignsProgram(s)
                [] profile = "linear" -> LinearProgram(s)
                [] profile = "numbers" -> NumberProgram(s)
                [] profile = "grade" -> GradeProgram(s)
                [] profile = "versor" -> VersorProgram(s)
                [] profile = "sandwich" -> SandwichProgram(s)
                [] profile = "dual" -> DualProgram(s)
                [] profile = "reps" -> RepsProgram(s)
                [] profile = "fractions" -> FractionsProgram(s)
                [] profile \in {"quotients", "lquotients"} -> QuotientsProgram(s)
                [] profile = "lazy" -> LazyProgram(s)
                [] profile = "outside" -> OutsideProgram(s)
                [] profile = "flats" -> FlatsProgram(s)
                [] profile = "rounds" -> RoundsProgram(s)
                [] profile = "project" -> ProjectProgram(s)
                [] profile = "vectors" -> VectorsProgram(s)
                [] profile = "constants" -> ConstantsProgram(s)
                [] profile = "copies" -> CopiesProgram(s)
                [] profile = "exp" -> ExpProgram(s)
                [] profile = "meet" -> MeetProgram(s)
                [] profile = "meetparts" -> PartProgram(s)
                [] profile \in {"reals", "lreals"} -> RealsProgram(s)
                [] profile = "text" -> TextProgram(s)
                [] profile = "tolerance" -> ToleranceProgram(s)
                [] profile = "deftol" -> DefaultToleranceProgram(s)
                [] profile = "opposite" -> OppositeProgram(s)
                [] profile = "nulls" -> NullProgram(s)
                [] profile = "smallexp" -> SmallExpProgram(s)
                [] profile \in {"runtime", "lruntime"} -> RuntimeProgram(s)
                [] profile = "scalars" -> ScalarsProgram(s)
                [] profile = "small" -> SmallProgram(s)
                [] profile = "planes" -> PlanesProgram(s)
  IN [id |-> s, in |-> body.in, steps |-> body.steps, mode |-> IF profile \in {"lazy", "lreals", "lruntime", "lquotients"} THEN "lazy" ELSE IF profile \in {"outside", "deftol"} THEN profile ELSE "now"]
=============================================================================
