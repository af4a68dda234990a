----------------------------- MODULE GFScalars -----------------------------
(* The scalars of LinAlg, TraceBase etc. for exact arithmetic in a finite     *)
(* field: "positive" means "not zero", and there are no magnitudes.          *)
EXTENDS GF
LOCAL INSTANCE Integers
GfPos(a)    == a # 0
GfLeq(a, b) == a <= b
GfId(a)     == a
GfIsSquare(a) == a = 0 \/ GfPow(a, (GFP - 1) \div 2) = 1
GfIs(a)     == a \in 0..(GFP - 1)
=============================================================================
