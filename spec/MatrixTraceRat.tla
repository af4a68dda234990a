---------------------------- MODULE MatrixTraceRat ----------------------------
(* Matrix traces recorded with rounded scalars, against exact rational arithmetic. *)
EXTENDS MatrixTrace, RatScalars
=============================================================================
