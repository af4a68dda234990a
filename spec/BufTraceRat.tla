----------------------------- MODULE BufTraceRat ----------------------------
(* Buffer traces recorded with rounded scalars, against exact rational arithmetic. *)
EXTENDS BufTrace, RatScalars
=============================================================================
