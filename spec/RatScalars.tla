----------------------------- MODULE RatScalars -----------------------------
(* The scalars of LinAlg, TraceBase etc. for exact rational arithmetic.      *)
EXTENDS BigRat
RatPos(a) == IsNum(a) /\ ~RatLeq(a, Rat("0"))
RatNum(a) == IsNum(a)
RatAbs(a) == IF RatLeq(a, Rat("0")) THEN RatSub(Rat("0"), a) ELSE a
=============================================================================
