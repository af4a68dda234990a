----------------------------- MODULE BufTraceGF ----------------------------
(* Buffer traces recorded with exact scalars (a finite field). *)
EXTENDS BufTrace, GFScalars
=============================================================================
