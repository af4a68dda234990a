---------------------------- MODULE ScalarTrace ----------------------------
(* Conformance of the scalar operations the library supplies: reciprocal and *)
(* square root, decided by multiplication alone.  cfg.rel is the relative,   *)
(* cfg.floor the absolute accuracy of the type on its back-end.              *)
EXTENDS TraceBase

Slack(v) == SAdd(SMul(SLift(cfg.rel), SAbs(v)), SLift(cfg.floor))
Low(v)  == SSub(v, Slack(v))
High(v) == SAdd(v, Slack(v))
Square(v) == SMul(v, v)
(* v is 1 / a *)
RecipOfPositive(a, v) == SLeq(SMul(Low(v), a), S1) /\ SLeq(S1, SMul(High(v), a))
RecipOf(a, v) == IsScalar(v) /\ IF SLeq(a, S0) THEN RecipOfPositive(SSub(S0, a), SSub(S0, v)) ELSE RecipOfPositive(a, v)
(* v is the square root of a *)
RootOf(a, v) == /\ IsScalar(v) /\ SLeq(S0, v)
                /\ SLeq(Low(v), S0) \/ SLeq(Square(Low(v)), a)
                /\ SLeq(a, Square(High(v)))

Scalar ==
    /\ IsEvent("scalar")
    /\ Judge(E.op) =>
          LET a == SLift(E.a)
              v == SLift(E.v)
          IN  Count("scalar") /\ Check(IF E.op = "recip" THEN RecipOf(a, v) ELSE RootOf(a, v), <<E.op, "of", E.a, "is not", E.v>>)
    /\ UNCHANGED <<cfg, obj, mem>>
Next == Begin \/ Scalar \/ Panic
Spec == Init /\ [][Next]_vars
=============================================================================
