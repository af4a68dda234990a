----------------------------- MODULE KalmanModel -----------------------------
(* The system: filters and the operations a user applies to them, with the   *)
(* model inputs (which the user may rewrite before each call) chosen from    *)
(* small sets.  What KalmanTrace holds the code to are the definitions in    *)
(* KalmanCore; here it is checked that with these definitions the laws a     *)
(* user relies on do hold, in every state that some history reaches.         *)
EXTENDS KalmanCore, Integers, Sequences, FiniteSets, TLC
CONSTANTS Filters, Starts, Trans, Noises, Lambdas, Controls, Observations, Gains, Functions, Calls, Ordered

VARIABLES est,    \* filter -> [x, P]
          calls   \* how many there have been
vars == <<est, calls>>

(* what is known about a measurement model m in estimate e *)
SOf(e, m) == InnovationCov(m.H, e.P, m.R)
Ok(e, m) == AllPivots(SOf(e, m))
Corr(e, m, y) == IF Ok(e, m)
                 THEN LET K == Gain(m.H, e.P, m.R) IN [x |-> UpdateX(K, y, e.x), P |-> UpdateP(K, m.H, e.P)]
                 ELSE e
LinCorr(e, m) == Corr(e, m, Innovation(m.H, e.x, m.z))
Ctrl(e, c) == [x |-> ControlX(c.B, c.u, e.x), P |-> ControlP(c.B, c.Q, e.P)]
Pred(e, A, Q) == [x |-> PredictX(A, e.x), P |-> PredictP(A, e.P, Q)]
Tune(e, A, Q, lam) == [x |-> PredictX(A, e.x), P |-> TunedP(A, e.P, Q, lam)]
(* a user's function, not linear *)
Apply(g, x) == Mat(Rows(g.W), 1, LAMBDA i, j : SAdd(SAdd(Dot(g.W[i], Transpose(x)[1]), g.c[i]), SMul(g.q, SMul(x[1][1], x[Rows(x)][1]))))

Same(a, b) == MatEq(a.x, b.x) /\ MatEq(a.P, b.P)
(* positive semidefinite, exactly (a zero pivot is fine if its row is zero)  *)
RECURSIVE PsdFrom(_, _)
PsdFrom(M, k) ==
    IF k > Rows(M) THEN TRUE
    ELSE IF SEq(M[k][k], S0) THEN (\A j \in k..Rows(M) : SEq(M[k][j], S0)) /\ PsdFrom(M, k + 1)
    ELSE SPos(M[k][k]) /\
         LET p == SInv(M[k][k])
         IN  PsdFrom(Mat(Rows(M), Cols(M), LAMBDA i, j : IF i <= k THEN M[i][j] ELSE SSub(M[i][j], SMul(SMul(M[i][k], p), M[k][j]))), k + 1)
IsPsd(M) == IsSymmetric(M) /\ (Ordered => PsdFrom(M, 1))
Below(M, N) == IsPsd(Sub(N, M))

-----------------------------------------------------------------------------
(* The laws; e is the estimate a call is applied to. *)
Law(name, ok) == IF ok THEN TRUE ELSE PrintT(<<"BROKEN LAW", name>>) /\ FALSE

(* C01, C02 *)
PredictLaws(e, A, Q) ==
    /\ Law("tuned by 1", Same(Tune(e, A, Q, S1), Pred(e, A, Q)))
    /\ \A lam \in Lambdas :
         /\ Law("only what is propagated is scaled", MatEq(Scale(SMul(lam, lam), Sub(Tune(e, A, Q, lam).P, Q)), Sub(Pred(e, A, Q).P, Q)))
         /\ Law("the state is not tuned", MatEq(Tune(e, A, Q, lam).x, Pred(e, A, Q).x))
    /\ Law("identity, no noise", Same(Pred(e, Identity(Rows(A)), ZeroMat(Rows(A), Rows(A))), e))
    /\ Law("noise is added", MatEq(Sub(Pred(e, A, Q).P, Q), Pred(e, A, ZeroMat(Rows(A), Rows(A))).P))
    /\ \A B \in Trans : Law("two steps without noise are one",
                            LET Z == ZeroMat(Rows(A), Rows(A)) IN Same(Pred(Pred(e, A, Z), B, Z), Pred(e, Mul(B, A), Z)))
    /\ Law("C09: identity does not lose uncertainty", Below(e.P, Pred(e, Identity(Rows(A)), Q).P))
    /\ Law("C09: stays a covariance", IsPsd(Pred(e, A, Q).P))
(* C03, C10 *)
Beside(B, C) == Mat(Rows(B), Cols(B) + Cols(C), LAMBDA i, j : IF j <= Cols(B) THEN B[i][j] ELSE C[i][j - Cols(B)])
Block(Q, R) == Mat(Rows(Q) + Rows(R), Rows(Q) + Rows(R), LAMBDA i, j :
                   IF i <= Rows(Q) /\ j <= Rows(Q) THEN Q[i][j]
                   ELSE IF i > Rows(Q) /\ j > Rows(Q) THEN R[i - Rows(Q)][j - Rows(Q)] ELSE S0)
ControlLaws(e, c) ==
    /\ \A d \in Controls :
         /\ Law("C10: controls in any order", Same(Ctrl(Ctrl(e, c), d), Ctrl(Ctrl(e, d), c)))
         /\ Law("C10: stacked controls", Same(Ctrl(Ctrl(e, c), d), Ctrl(e, [B |-> Beside(c.B, d.B), u |-> c.u \o d.u, Q |-> Block(c.Q, d.Q)])))
    /\ Law("C09: a control does not lose uncertainty", Below(e.P, Ctrl(e, c).P))
    /\ Law("C09: stays a covariance", IsPsd(Ctrl(e, c).P))
(* C04, C09, C10, C22 *)
Joseph(e, m, K) == LET I == Sub(Identity(Rows(e.P)), Mul(K, m.H)) IN Add(Quad(I, e.P), Quad(K, m.R))
Both(m, n) == [H |-> m.H \o n.H, z |-> m.z \o n.z, R |-> Block(m.R, n.R)]
CorrectLaws(e, m) ==
    LET c == LinCorr(e, m) IN
    IF ~Ok(e, m) THEN Law("C22: refused", Same(c, e))
    ELSE /\ LET K == Gain(m.H, e.P, m.R) IN
            /\ Law("gain", MatEq(Mul(K, SOf(e, m)), MulT(e.P, m.H)))
            /\ Law("the form that is symmetric by construction", MatEq(c.P, Joseph(e, m, K)))
            /\ Ordered => \A L \in Gains : (Cols(L) = Rows(m.H)) => Law("no gain is better", Below(c.P, Joseph(e, m, L)))
            /\ Law("what is left of the innovation", MatEq(Innovation(m.H, c.x, m.z), Mul(Mul(m.R, Inverse(SOf(e, m))), Innovation(m.H, e.x, m.z))))
         /\ IsPsd(m.R) => /\ Law("C09: a correction does not add uncertainty", Below(c.P, e.P))
                          /\ Law("C09: stays a covariance", IsPsd(c.P))
         (* information adds up *)
         /\ (AllPivots(e.P) /\ AllPivots(m.R) /\ AllPivots(c.P)) =>
              /\ Law("information", MatEq(Inverse(c.P), Add(Inverse(e.P), Mul(Mul(Transpose(m.H), Inverse(m.R)), m.H))))
              /\ Law("information vector", MatEq(Mul(Inverse(c.P), c.x), Add(Mul(Inverse(e.P), e.x), Mul(Mul(Transpose(m.H), Inverse(m.R)), m.z))))
         /\ \A n \in Observations :
              (Ok(e, n) /\ Ok(c, n) /\ Ok(LinCorr(e, n), m)) =>
                /\ Law("C10: in any order", Same(LinCorr(c, n), LinCorr(LinCorr(e, n), m)))
                /\ Ok(e, Both(m, n)) => Law("C10: stacked", Same(LinCorr(c, n), LinCorr(e, Both(m, n))))
         (* C22: a refused measurement in between has no effect *)
         /\ \A n \in Observations : (~Ok(e, n)) => Law("C22: later", Same(LinCorr(LinCorr(e, n), m), c))
(* C06: any function: the covariance is that of the linear correction *)
NlCorrectLaws(e, m, g) ==
    /\ Law("covariance does not depend on the measurement", MatEq(Corr(e, m, Sub(m.z, Apply(g, e.x))).P, LinCorr(e, m).P))
    /\ (MatEq(g.W, m.H) /\ SEq(g.q, S0) /\ \A i \in 1..Len(g.c) : SEq(g.c[i], S0)) =>
         Law("C06: linear", Same(Corr(e, m, Sub(m.z, Apply(g, e.x))), LinCorr(e, m)))

-----------------------------------------------------------------------------
(* The first step chooses the estimates to begin with. *)
Init == est = << >> /\ calls = -1
Start == calls = -1 /\ calls' = 0 /\ est' \in [Filters -> Starts]
Becomes(f, e) == est' = [est EXCEPT ![f] = e] /\ calls' = calls + 1
Call ==
    /\ calls \in 0..(Calls - 1)
    /\ \E f \in Filters : LET e == est[f] IN
        \/ \E A \in Trans, Q \in Noises : Becomes(f, Pred(e, A, Q))
        \/ \E A \in Trans, Q \in Noises, lam \in Lambdas : Becomes(f, Tune(e, A, Q, lam))
        \/ \E g \in Functions, J \in Trans, Q \in Noises :
             Rows(g.W) = Rows(e.x) /\ Becomes(f, [x |-> Apply(g, e.x), P |-> PredictP(J, e.P, Q)])
        \/ \E c \in Controls : Becomes(f, Ctrl(e, c))
        \/ \E m \in Observations : Becomes(f, LinCorr(e, m))
        \/ \E m \in Observations, g \in Functions :
             Rows(g.W) = Rows(m.H) /\ Becomes(f, Corr(e, m, Sub(m.z, Apply(g, e.x))))
Next == Start \/ Call
Spec == Init /\ [][Next]_vars

(* C09 over every history *)
Covariances == calls >= 0 => \A f \in Filters : IsPsd(est[f].P)
LawsHold == calls \in 0..(Calls - 1) => \A f \in Filters : LET e == est[f] IN
    /\ \A A \in Trans, Q \in Noises : PredictLaws(e, A, Q)
    /\ \A c \in Controls : ControlLaws(e, c)
    /\ \A m \in Observations : CorrectLaws(e, m) /\ \A g \in Functions : Rows(g.W) = Rows(m.H) => NlCorrectLaws(e, m, g)
=============================================================================
