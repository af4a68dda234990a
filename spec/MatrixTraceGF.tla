---------------------------- MODULE MatrixTraceGF ----------------------------
(* Matrix traces recorded with exact scalars (a finite field). *)
EXTENDS MatrixTrace, GFScalars
=============================================================================
