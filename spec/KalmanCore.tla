----------------------------- MODULE KalmanCore -----------------------------
(* What one call means: the value of the estimate after each operation, as a *)
(* function of the estimate and of the model inputs before it.               *)
EXTENDS LinAlg

PredictX(A, x)            == Mul(A, x)
PredictP(A, P, Q)         == Add(Quad(A, P), Q)
TunedP(A, P, Q, lambda)   == Add(Scale(SInv(SMul(lambda, lambda)), Quad(A, P)), Q)

ControlX(B, u, x)         == Add(x, Mul(B, u))
ControlP(B, Qu, P)        == Add(P, Quad(B, Qu))

Innovation(H, x, z)       == Sub(z, Mul(H, x))
InnovationCov(H, P, R)    == Add(Quad(H, P), R)
Gain(H, P, R)             == Mul(MulT(P, H), Inverse(InnovationCov(H, P, R)))
(* the measurement update for an innovation y and a gain K                   *)
UpdateX(K, y, x)          == Add(x, Mul(K, y))
UpdateP(K, H, P)          == Sub(P, Mul(K, Mul(H, P)))
(* S is usable when elimination meets usable pivots only                     *)
Usable(H, P, R)           == AllPivots(InnovationCov(H, P, R))
=============================================================================
