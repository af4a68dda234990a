---------------------------- MODULE KalmanModelGF ----------------------------
(* Two states over a small field: the algebraic laws for all covariances and *)
(* all measurements of one component.                                        *)
EXTENDS KalmanModel, GFScalars
K == 0..(GFP - 1)
MC_Starts == { [x |-> << <<1>>, <<2>> >>, P |-> << <<a, b>>, <<b, d>> >>] : a \in K, b \in K, d \in K }
MC_Trans == { << <<1, 0>>, <<0, 1>> >>, << <<1, 1>>, <<0, 1>> >>, << <<0, 2>>, <<1, 1>> >>, << <<1, 2>>, <<2, 1>> >>, << <<0, 1>>, <<0, 0>> >> }
MC_Noises == { << <<a, b>>, <<b, 1>> >> : a \in K, b \in K }
MC_Lambdas == K \ {0}
MC_Controls == { [B |-> << <<a>>, <<b>> >>, u |-> << <<2>> >>, Q |-> << <<q>> >>] : a \in K, b \in K, q \in K }
          \cup { [B |-> << <<1, 0>>, <<2, 1>> >>, u |-> << <<1>>, <<2>> >>, Q |-> << <<1, 2>>, <<2, 0>> >>] }
MC_Observations == { [H |-> << <<a, b>> >>, z |-> << <<2>> >>, R |-> << <<r>> >>] : a \in K, b \in K, r \in K }
          \cup { [H |-> << <<1, a>>, <<2, b>> >>, z |-> << <<2>>, <<1>> >>, R |-> << <<1, 1>>, <<1, a>> >>] : a \in K, b \in K }
MC_Gains == {}
MC_Functions == { [W |-> << <<1, 1>>, <<0, 1>> >>, c |-> <<1, 0>>, q |-> 1], [W |-> << <<1, 0>> >>, c |-> <<0>>, q |-> 0], [W |-> << <<1, 1>> >>, c |-> <<2>>, q |-> 1] }
MC_Filters == {"f"}
=============================================================================
