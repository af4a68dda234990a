---------------------------- MODULE KalmanTraceRat ----------------------------
(* Filter traces recorded with rounded scalars, against exact rational arithmetic. *)
EXTENDS KalmanTrace, RatScalars
=============================================================================
