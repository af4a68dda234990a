----------------------------- MODULE KalmanTrace -----------------------------
(* Conformance of recorded executions with the specification of the filters. *)
(*                                                                           *)
(* The state is everything a user can see: `obj` says which filters,         *)
(* controls and observations exist and how large they are, `mem` holds the   *)
(* whole backing storage of each of their buffers ("f1.x", "o1.R", ...) in   *)
(* recorded (row-major) form.  There is one action per public operation; it  *)
(* consumes one recorded event, which carries the operation's arguments and  *)
(* in e.d every buffer whose storage changed during the call.  A buffer that *)
(* is not in e.d kept its contents bit for bit.                              *)
(*                                                                           *)
(* A property's check judges a set of aspects of the trace (cfg.judge):      *)
(* operation names (their results), "frame" (nothing else changed),          *)
(* "surplus" (storage beyond the matrix untouched), "cov" (covariance laws), *)
(* "same", "read", "dims", "init", "evals" (how often a user's function is    *)
(* evaluated, and where) and "degenerate".  What is not judged is adopted.   *)
EXTENDS TraceBase

Name(o, b) == o \o "." \o b
Ob(o) == obj[o]
(* the shape of buffer b of an object *)
Shape(k, b) ==
    IF b \in {"x"} THEN <<k.S, 1>>
    ELSE IF b \in {"A", "P"} THEN <<k.S, k.S>>
    ELSE IF b = "Q" THEN (IF k.k = "ctl" THEN <<k.M, k.M>> ELSE <<k.S, k.S>>)
    ELSE IF b \in {"u", "z"} THEN <<k.M, 1>>
    ELSE IF b = "B" THEN <<k.S, k.M>>
    ELSE IF b = "H" THEN <<k.M, k.S>>
    ELSE <<k.M, k.M>>                                   \* R
M(o, b) == LET s == Shape(Ob(o), b) IN FromFlat(mem[Name(o, b)], s[1], s[2])
New(o, b) == LET s == Shape(Ob(o), b) IN FromFlat(Cur(Name(o, b)), s[1], s[2])

NoiseOk(o, b) == CovOk(M(o, b))
(* scale is the magnitude of the terms the new covariance is computed from   *)
CovLaw(f, premise, scale, law, what) ==
    IF ~premise THEN Count("covariance skipped: premise") ELSE
       LET a == IF Approx THEN Allow(scale) ELSE S0
       IN /\ Count("covariance")
          /\ Check(CovTo(New(f, "P"), a), <<what, "covariance not symmetric positive semidefinite">>)
          /\ Approx =>
               /\ law = "down" => Check(Psd(Sub(M(f, "P"), New(f, "P")), a), <<what, "covariance increased">>)
               /\ law = "up" => Check(Psd(Sub(New(f, "P"), M(f, "P")), a), <<what, "covariance decreased">>)
IsIdentity(A) == MatEq(A, Identity(Rows(A)))

-----------------------------------------------------------------------------
NewObject ==
    /\ IsEvent("new")
    /\ Judge("init") => \A n \in DOMAIN E.b :
            /\ Count("initial")
            /\ Check(Len(E.b[n]) = E.n[n], <<"init", n, "has", Len(E.b[n]), "elements instead of", E.n[n]>>)
            /\ \A i \in 1..Len(E.b[n]) : Check(SEq(SLift(E.b[n][i]), S0), <<"init", n, "not zero">>)
    /\ obj' = (E.o :> [k |-> E.k, S |-> E.S, M |-> E.M]) @@ obj
    /\ mem' = E.b @@ mem
    /\ cfg' = [cfg EXCEPT !.ext = E.n @@ @]

(* The user writes a buffer through one of its accessors. *)
Set == /\ IsEvent("set")
       /\ Frame({E.b}, <<"set", E.b>>)
       /\ SurplusKept
       /\ Judge("set") => Check(SubSeq(Cur(E.b), 1, Len(E.v)) = E.v, <<"set", E.b, "wrote", E.v, "found", Cur(E.b)>>)
       /\ Adopt
(* ... or reads one. *)
Read == /\ IsEvent("read")
        /\ Frame({}, <<"read", E.b>>)
        /\ Judge("read") => Check(SubSeq(mem[E.b], 1, Len(E.v)) = E.v, <<"read", E.b, E.via, "expected", mem[E.b], "got", E.v>>)
        /\ Adopt
Dims == /\ IsEvent("dims")
        /\ Judge("dims") => Check(E.S = Ob(E.o).S /\ E.M = Ob(E.o).M, <<"dims", E>>)
        /\ UNCHANGED <<obj, mem, cfg>>

Estimate(f) == {Name(f, "x"), Name(f, "P")}

-----------------------------------------------------------------------------
PScale(f, lambda) ==
    LET APA == Quad(Mag(M(f, "A")), Mag(M(f, "P")))
        g == SInv(SMul(SLift(lambda), SLift(lambda)))
    IN  Add(IF SEq(SLift(lambda), S1) THEN APA ELSE Scale(SMax(SAdd(SAbs(g), Fl), SMul(Fl, SMul(g, g))), APA), Mag(M(f, "Q")))
PredictPConform(f, lambda, what) ==
    LET A == M(f, "A")
        P == M(f, "P")
        Q == M(f, "Q")
    IN  (AllNum(A) /\ AllNum(P) /\ AllNum(Q)) =>
        Conform(New(f, "P"), IF SEq(SLift(lambda), S1) THEN PredictP(A, P, Q) ELSE TunedP(A, P, Q, SLift(lambda)),
                IF Approx THEN PScale(f, lambda) ELSE << >>, what)
PredictXConform(f, what) ==
    LET A == M(f, "A")
        x == M(f, "x")
    IN  (AllNum(A) /\ AllNum(x)) =>
        Conform(New(f, "x"), PredictX(A, x), IF Approx THEN Mul(Mag(A), Mag(x)) ELSE << >>, what)

PredictLike(f, lambda, what) ==
    /\ Frame(Estimate(f), what)
    /\ SurplusKept
    /\ Judge("cov") => CovLaw(f, CovOk(M(f, "P")) /\ NoiseOk(f, "Q") /\ IsNumMat(M(f, "A")), IF Approx THEN PScale(f, lambda) ELSE << >>, IF SEq(SLift(lambda), S1) /\ IsIdentity(M(f, "A")) THEN "up" ELSE "any", what)
    /\ Adopt

Predict == /\ IsEvent("predict")
           /\ Judge("predict") => PredictXConform(E.f, <<E.f, "x after predict">>) /\ PredictPConform(E.f, S1, <<E.f, "P after predict">>)
           /\ PredictLike(E.f, S1, "predict")
Tuned == /\ IsEvent("tuned")
         /\ Judge("tuned") => PredictXConform(E.f, <<E.f, "x after tuned predict">>) /\ PredictPConform(E.f, E.lam, <<E.f, "P after tuned predict">>)
         /\ PredictLike(E.f, E.lam, "tuned")

(* The user's function is evaluated once, at the prior state, and its result *)
(* becomes the state.                                                        *)
EvalOnce(f, what) ==
    /\ Check(E.calls = 1, <<what, "function evaluated", E.calls, "times">>)
    /\ Check(SubSeq(mem[Name(f, "x")], 1, Ob(f).S) = E.seen, <<what, "function saw", E.seen, "instead of", mem[Name(f, "x")]>>)
NlX(f, what) == /\ EvalOnce(f, what)
                /\ Check(SubSeq(Cur(Name(f, "x")), 1, Ob(f).S) = E.ret, <<what, "state", Cur(Name(f, "x")), "instead of", E.ret>>)
NlPredict == /\ IsEvent("npredict")
             /\ Judge("evals") => EvalOnce(E.f, "npredict")
             /\ Judge("npredict") => NlX(E.f, "npredict") /\ PredictPConform(E.f, S1, <<E.f, "P after nonlinear predict">>)
             /\ PredictLike(E.f, S1, "npredict")
NlTuned == /\ IsEvent("ntuned")
           /\ Judge("evals") => EvalOnce(E.f, "ntuned")
           /\ Judge("ntuned") => NlX(E.f, "ntuned") /\ PredictPConform(E.f, E.lam, <<E.f, "P after tuned nonlinear predict">>)
           /\ PredictLike(E.f, E.lam, "ntuned")

CScale(f, c) == IF Ob(c).M = 0 THEN Mag(M(f, "P")) ELSE Add(Mag(M(f, "P")), Quad(Mag(M(c, "B")), Mag(M(c, "Q"))))
ControlStep ==
    /\ IsEvent("control")
    /\ LET c == E.c
           f == E.f
       IN /\ (Judge("control") /\ Ob(c).M > 0) =>
                LET B == M(c, "B")
                    u == M(c, "u")
                    Q == M(c, "Q")
                    x == M(f, "x")
                    P == M(f, "P")
                IN  (AllNum(B) /\ AllNum(u) /\ AllNum(Q) /\ AllNum(x) /\ AllNum(P)) =>
                    /\ Conform(New(f, "x"), ControlX(B, u, x), IF Approx THEN Add(Mag(x), Mul(Mag(B), Mag(u))) ELSE << >>, <<f, "x after control">>)
                    /\ Conform(New(f, "P"), ControlP(B, Q, P), IF Approx THEN CScale(f, c) ELSE << >>, <<f, "P after control">>)
          /\ (Judge("control") /\ Ob(c).M = 0) => Check(DOMAIN E.d = {}, <<f, "changed by a control without inputs">>)
          /\ Frame(IF Ob(c).M = 0 THEN {} ELSE Estimate(f), "control")
          /\ SurplusKept
          /\ Judge("cov") => CovLaw(f, CovOk(M(f, "P")) /\ (Ob(c).M = 0 \/ (NoiseOk(c, "Q") /\ IsNumMat(M(c, "B")))), IF Approx THEN CScale(f, c) ELSE << >>, "up", "control")
    /\ Adopt

(* How rounding errors in the innovation covariance S are amplified. *)
Amplification(f, o, S, Si) ==
    LET H == M(o, "H")
        P == M(f, "P")
        si == NormInf(Mag(Si))
        kap == SMul(NormInf(Add(Quad(Mag(H), Mag(P)), Mag(M(o, "R")))), si)
        g  == SMul(si, kap)
        PH == MulT(Mag(P), Mag(H))
        HPt == Transpose(Mul(Mag(H), Mag(P)))
        ks == [i \in 1..Rows(P) |-> SMul(g, RowSum(PH, i))]
    IN  [ok |-> SLeq(kap, SLift(cfg.kmax)), ks |-> ks,
         P |-> Mat(Rows(P), Rows(P), LAMBDA i, j : SAdd(SAdd(SAbs(P[i][j]), Fl), SMul(ks[i], RowSum(HPt, j))))]
(* An asymmetry too small to matter (one left by rounding may be large       *)
(* compared with what an update has left of a covariance).                   *)
Even(A) == LET c == SMul(SLift(cfg.rel), SInv(SAdd(S1, S1)))
           IN  \A i \in 1..Rows(A) : \A j \in 1..(i - 1) :
                  LET d == SMul(SInv(c), SSub(A[i][j], A[j][i]))
                  IN  SLeq(SMul(d, d), SMul(SAdd(SAbs(A[i][i]), Fl), SAdd(SAbs(A[j][j]), Fl)))
(* The first unusable pivot is no matter of rounding (cfg.clear: none is).   *)
ClearlyUnusable(S) ==
    \/ ~Approx \/ cfg.clear
    \/ LET p == PivotsFrom(S, 1)
       IN  SLeq(p[Len(p)], SSub(S0, SMul(SLift(cfg.rel), NormInf(Mag(S)))))
(* The measurement update of filter f by observation o with innovation y;    *)
(* ymag is the magnitude of the terms y was computed from.                   *)
UpdateConform(f, o, y, ymag, what) ==
    LET H == M(o, "H")
        R == M(o, "R")
        x == M(f, "x")
        P == M(f, "P")
        S == InnovationCov(H, P, R)
    IN  (AllNum(H) /\ AllNum(R) /\ AllNum(x) /\ AllNum(P) /\ AllNum(y)) =>
        IF Approx /\ ~(Even(P) /\ Even(R)) THEN Count("value skipped: ill-conditioned")
        ELSE IF ~AllPivots(S)
        THEN (Judge("degenerate") /\ ClearlyUnusable(S)) => Count("degenerate") /\ Check(DOMAIN E.d \cap Estimate(f) = {}, <<what, "changed the estimate although the innovation covariance is unusable">>)
        ELSE Judge(E.e) =>
             LET Si == Inverse(S)
                 K  == Mul(MulT(P, H), Si)
             IN  IF ~Approx
                 THEN /\ Conform(New(f, "x"), UpdateX(K, y, x), << >>, <<f, "x after", what>>)
                      /\ Conform(New(f, "P"), UpdateP(K, H, P), << >>, <<f, "P after", what>>)
                 ELSE LET gain == Amplification(f, o, S, Si)
                          ym == NormInf(ymag)
                      IN  IF ~gain.ok THEN Count("value skipped: ill-conditioned") ELSE
                          /\ Conform(New(f, "x"), UpdateX(K, y, x),
                                     Mat(Rows(x), 1, LAMBDA i, j : SAdd(SAdd(SAbs(x[i][1]), Fl), SMul(gain.ks[i], ym))), <<f, "x after", what>>)
                          /\ Conform(New(f, "P"), UpdateP(K, H, P), gain.P, <<f, "P after", what>>)
UpdateCovLaw(f, o, what) ==
    LET S == InnovationCov(M(o, "H"), M(f, "P"), M(o, "R"))
        num == CovOk(M(f, "P")) /\ NoiseOk(o, "R") /\ IsNumMat(M(o, "H"))
        use == num /\ AllPivots(S)
        gain == IF use /\ Approx THEN Amplification(f, o, S, Inverse(S)) ELSE [ok |-> TRUE, P |-> IF Approx THEN Mag(M(f, "P")) ELSE << >>]
    IN  CovLaw(f, num /\ gain.ok, gain.P, "down", what)
UpdateLike(f, o, what) ==
    /\ Frame(Estimate(f), what)
    /\ SurplusKept
    /\ Judge("cov") => UpdateCovLaw(f, o, what)
    /\ AdoptMem
    /\ cfg' = IF Judge("order") THEN [cfg EXCEPT !.bad = @ \/ ~Usable(M(o, "H"), M(f, "P"), M(o, "R"))] ELSE cfg

Correct ==
    /\ IsEvent("correct")
    /\ (Judge("correct") \/ Judge("degenerate")) =>
          LET H == M(E.o, "H")
              x == M(E.f, "x")
              z == M(E.o, "z")
          IN  (AllNum(H) /\ AllNum(x) /\ AllNum(z)) =>
              UpdateConform(E.f, E.o, Innovation(H, x, z), IF Approx THEN Add(Mag(z), Mul(Mag(H), Mag(x))) ELSE << >>, "correct")
    /\ UpdateLike(E.f, E.o, "correct")

NlCorrect ==
    /\ IsEvent("ncorrect")
    /\ (Judge("ncorrect") \/ Judge("evals")) => EvalOnce(E.f, "ncorrect")
    /\ (Judge("ncorrect") \/ Judge("degenerate")) =>
          LET z == M(E.o, "z")
              h == V(E.ret)
          IN  (AllNum(z) /\ AllNum(h)) =>
              UpdateConform(E.f, E.o, Sub(z, h), IF Approx THEN Add(Mag(z), Mag(h)) ELSE << >>, "ncorrect")
    /\ UpdateLike(E.f, E.o, "ncorrect")

-----------------------------------------------------------------------------
(* The harness remembers the current contents of buffers under other names.  *)
Mark == /\ IsEvent("mark")
        /\ LET ps == {E.p[i] : i \in 1..Len(E.p)}
               src(n) == (CHOOSE q \in ps : q[2] = n)[1]
               new == {q[2] : q \in ps}
           IN /\ mem' = [n \in new |-> mem[src(n)]] @@ mem
              /\ cfg' = [cfg EXCEPT !.ext = [n \in new |-> cfg.ext[src(n)]] @@ @]
        /\ UNCHANGED obj

(* Two ways of doing the same thing end in the same values.  E.p lists pairs *)
(* of buffers, E.oa and E.ob say how the two ways ended ("ok" or "panic").   *)
(* The order of measurements ("order") is irrelevant if all could be used.   *)
Same ==
    /\ IsEvent("same")
    /\ Judge(E.aspect) =>
       IF E.aspect = "order" /\ cfg.bad THEN Count("same skipped: premise") ELSE
         /\ Count("same")
         /\ Check(E.oa = E.ob, <<"same", E.why, "one way", E.oa, "the other", E.ob>>)
         /\ \A k \in 1..Len(E.p) :
              LET a == E.p[k][1]
                  b == E.p[k][2]
                  n == cfg.ext[a]
                  Va == FromFlat(mem[a], n, 1)
                  Vb == FromFlat(mem[b], n, 1)
                  s == IF Approx THEN NormInf(Transpose(Mag(Va))) ELSE S0
              IN  IF E.tol = "bits" THEN Check(SubSeq(mem[a], 1, n) = SubSeq(mem[b], 1, n), <<"same", E.why, a, mem[a], b, mem[b]>>)
                  ELSE (AllNum(Va) /\ AllNum(Vb)) =>
                       IF Approx THEN \A i \in 1..n : Check(SLeq(SAbs(SSub(Va[i][1], Vb[i][1])), SMul(SLift(E.tol), s)),
                                                        <<"same", E.why, a, b, i, SStr(Va[i][1]), SStr(Vb[i][1])>>)
                       ELSE Check(MatEq(Va, Vb), <<"same", E.why, a, mem[a], b, mem[b]>>)
    /\ UNCHANGED <<obj, mem, cfg>>

Next == \/ Begin \/ NewObject \/ Set \/ Read \/ Dims
        \/ Predict \/ Tuned \/ NlPredict \/ NlTuned
        \/ ControlStep \/ Correct \/ NlCorrect
        \/ Mark \/ Same \/ Panic \/ Final
Spec == Init /\ [][Next]_vars
=============================================================================
