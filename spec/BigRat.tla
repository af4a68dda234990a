------------------------------- MODULE BigRat -------------------------------
(* Exact rational arithmetic.  A rational is a pair <<n, d>> with d > 0, or  *)
(* <<0, 0>> for "not a number" (a NaN or an infinity read from a trace).     *)
(* TLC's integers are 32 bits wide, so for model checking these operators    *)
(* are evaluated by kalmanspec.Rat (/verif/java), which implements the same  *)
(* definitions on arbitrary-precision integers, and also accepts integers    *)
(* and the strings "m", "m/n" and "mpE" (m * 2^E) used in recorded traces.   *)
LOCAL INSTANCE Integers

LOCAL NaN == <<0, 0>>
RECURSIVE RatGcd(_, _)
RatGcd(a, b) == IF b = 0 THEN a ELSE RatGcd(b, a % b)
LOCAL Abs(a) == IF a < 0 THEN -a ELSE a
LOCAL Norm(n, d) == IF d = 0 THEN NaN
                    ELSE LET s == IF d < 0 THEN -1 ELSE 1
                             g == RatGcd(Abs(n), Abs(d))
                         IN  <<(s * n) \div g, (s * d) \div g>>

Rat(a)       == a                    \* the rational denoted by a
RatStr(a)    == a                    \* its canonical notation
IsNum(a)     == a[2] # 0
RatAdd(a, b) == IF ~IsNum(a) \/ ~IsNum(b) THEN NaN ELSE Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RatSub(a, b) == IF ~IsNum(a) \/ ~IsNum(b) THEN NaN ELSE Norm(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RatMul(a, b) == IF ~IsNum(a) \/ ~IsNum(b) THEN NaN ELSE Norm(a[1] * b[1], a[2] * b[2])
RatInv(a)    == IF ~IsNum(a) THEN NaN ELSE Norm(a[2], a[1])
RatLeq(a, b) == IsNum(a) /\ IsNum(b) /\ a[1] * b[2] <= b[1] * a[2]
RatEq(a, b)  == IsNum(a) /\ IsNum(b) /\ a = b
=============================================================================
