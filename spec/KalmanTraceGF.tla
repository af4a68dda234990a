---------------------------- MODULE KalmanTraceGF ----------------------------
(* Filter traces recorded with exact scalars (a finite field). *)
EXTENDS KalmanTrace, GFScalars
=============================================================================
