---------------------------- MODULE KalmanImplGF ----------------------------
(* Two filters that share observations and controls, over a small field.     *)
EXTENDS KalmanImpl, GFScalars
m2(a, b, c, d) == << <<a, b>>, <<c, d>> >>
MC_Filters == {1, 2}
MC_Starts == { [x |-> << <<1>>, <<2>> >>, P |-> m2(1, 0, 0, 1)], [x |-> << <<2>>, <<2>> >>, P |-> m2(2, 1, 1, 0)] }
MC_Trans == { m2(1, 2, 1, 1) }
MC_Noises == { m2(1, 1, 1, 2) }
MC_Lambdas == { 2 }
MC_Controls == { [B |-> << <<1>>, <<2>> >>, u |-> << <<2>> >>, Q |-> << <<1>> >>] }
MC_Observations == { [H |-> << <<1, 2>> >>, z |-> << <<2>> >>, R |-> << <<1>> >>],
                     [H |-> m2(1, 0, 2, 1), z |-> << <<2>>, <<1>> >>, R |-> m2(1, 1, 1, 2)] }
MC_Gains == {}
MC_Functions == { [W |-> m2(1, 1, 0, 1), c |-> <<1, 0>>, q |-> 1], [W |-> << <<1, 1>> >>, c |-> <<2>>, q |-> 1] }
MC_Sharings == {Separate}
MC_Shared == Allowed
(* a pair which the documentation rules out (the other one, HP and KHP, goes  *)
(* wrong within a step: a product is not calculated in place)                *)
MC_Forbidden == {Pair(Separate, "Si", "PHt")}
MC_Junk(r, c, n) == Mat(r, c, LAMBDA i, j : ((n - 1) * (i + 2 * j)) % GFP)
=============================================================================
