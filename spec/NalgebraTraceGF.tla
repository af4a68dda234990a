----------------------------- MODULE NalgebraTraceGF ----------------------------
(* Buffer traces recorded with exact scalars (a finite field). *)
EXTENDS NalgebraTrace, GFScalars
=============================================================================
