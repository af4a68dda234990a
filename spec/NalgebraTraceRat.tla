----------------------------- MODULE NalgebraTraceRat ----------------------------
(* Buffer traces recorded with rounded scalars, against exact rational arithmetic. *)
EXTENDS NalgebraTrace, RatScalars
=============================================================================
