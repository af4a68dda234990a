---------------------------- MODULE ScalarTraceRat ----------------------------
(* Matrix traces recorded with rounded scalars, against exact rational arithmetic. *)
EXTENDS ScalarTrace, RatScalars
=============================================================================
