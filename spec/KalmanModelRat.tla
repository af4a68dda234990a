--------------------------- MODULE KalmanModelRat ---------------------------
(* Two states, rational numbers: the laws that speak of order and size, too. *)
(* The measurement with noise -1000 is never usable.                         *)
EXTENDS KalmanModel, RatScalars
r(n) == Rat(n)
m1(a) == << <<r(a)>> >>
v2(a, b) == << <<r(a)>>, <<r(b)>> >>
h(a, b) == << <<r(a), r(b)>> >>
m2(a, b, c, d) == << <<r(a), r(b)>>, <<r(c), r(d)>> >>
Z == m2(0, 0, 0, 0)
I == m2(1, 0, 0, 1)
MC_Starts == { [x |-> v2(1, -2), P |-> m2(2, 1, 1, 1)], [x |-> v2(0, 3), P |-> m2(4, 0, 0, 0)] }
MC_Trans == { I, m2(1, 1, 0, 1), m2(0, 2, -1, 1) }
MC_Noises == { Z, m2(1, 0, 0, 2) }
MC_Lambdas == { r("3/2"), r(-2) }
MC_Controls == { [B |-> v2(1, 2), u |-> m1(3), Q |-> m1(2)], [B |-> m2(1, 0, 1, 1), u |-> v2(1, -1), Q |-> m2(2, 1, 1, 1)], [B |-> v2(0, 1), u |-> m1(-1), Q |-> m1(0)] }
MC_Observations == { [H |-> h(1, 0), z |-> m1(1), R |-> m1(1)], [H |-> h(1, -1), z |-> m1(2), R |-> m1(0)],
                     [H |-> m2(1, 0, 1, 1), z |-> v2(2, 0), R |-> m2(2, 1, 1, 3)], [H |-> h(0, 0), z |-> m1(5), R |-> m1(0)],
                     [H |-> h(1, 1), z |-> m1(0), R |-> m1(-1000)],
                     [H |-> << <<r(1), r(0)>>, <<r(0), r(1)>>, <<r(1), r(1)>> >>, z |-> << <<r(1)>>, <<r(0)>>, <<r(2)>> >>,
                      R |-> << <<r(1), r(0), r(0)>>, <<r(0), r(1), r(0)>>, <<r(0), r(0), r(2)>> >>] }
MC_Gains == { v2(0, 0), v2(1, 0), v2(1, 1), Z, I }
MC_Functions == { [W |-> m2(1, 1, 0, 1), c |-> <<r(1), r(0)>>, q |-> r(1)], [W |-> h(1, 0), c |-> <<r(0)>>, q |-> r(0)], [W |-> h(1, 1), c |-> <<r(2)>>, q |-> r(1)] }
MC_Filters == {"f"}
=============================================================================
