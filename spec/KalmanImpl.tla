----------------------------- MODULE KalmanImpl -----------------------------
(* The calls of KalmanModel, carried out in steps the way the library does:  *)
(* in place, with working memory that belongs to the filters, controls and   *)
(* observations, that begins with any content and that every call leaves     *)
(* behind for the next one (which may be of another filter that uses the     *)
(* same observation).  A correction finds out halfway through that its       *)
(* innovation covariance cannot be used, and gives up.                       *)
(*                                                                           *)
(* It refines KalmanModel: seen from outside each call is one step, whose    *)
(* result depends on the estimate and on the model inputs only (C07), which  *)
(* changes the estimate it is applied to only (C08), and which does nothing  *)
(* if it is refused (C22).                                                   *)
(*                                                                           *)
(* Temporary memory may be shared: between the objects, and within an        *)
(* observation in some pairs (Allowed).  A sharing gives each of them its    *)
(* cell; what is written through one is seen through all others of the cell, *)
(* as far as they reach.                                                     *)
(*                                                                           *)
(* Fault names a step that is done wrongly, to see that it would be noticed. *)
EXTENDS KalmanCore, Integers, Sequences, FiniteSets, TLC
CONSTANTS Filters, Starts, Trans, Noises, Lambdas, Controls, Observations, Gains, Functions, Calls, Ordered,
          Junk(_, _, _),    \* a matrix of given size, with content n = 1, 2..: Junk(r, c, n)
          Kinds,   \* how many of them
          Sharings,   \* temporary -> cell
          Fault

ASSUME Fault \in {"none", "accumulates", "old gain", "sees the new state", "no look back", "gives up late", "wrong filter", "no second HP"}
Temporary == {"tP", "BQ", "Si", "HP", "PHt", "KHP"}
ASSUME \A s \in Sharings : DOMAIN s = Temporary
Separate == [t \in Temporary |-> t]
Pair(s, a, b) == [s EXCEPT ![a] = s[b]]
(* the pairs an observation's temporaries may form; the filter's and the control's may form one, too *)
Allowed == LET one == {Separate, Pair(Separate, "Si", "KHP"), Pair(Separate, "Si", "HP"), Pair(Separate, "HP", "PHt"), Pair(Separate, "PHt", "KHP"),
                       Pair(Pair(Separate, "Si", "KHP"), "HP", "PHt"), Pair(Pair(Separate, "Si", "HP"), "PHt", "KHP")}
           IN UNION {{s, Pair(s, "tP", "BQ")} : s \in one}

VARIABLES est,      \* filter -> [x, P]; halfway through a call, something in between
          fwork,    \* filter -> its working memory
          cwork,    \* the same of controls ..
          owork,    \* .. and observations
          op,       \* the call going on
          pc,       \* the next step
          cell,     \* who shares memory with whom, of all objects; or each has its own
          shown,    \* the estimates as they were after the last call
          calls
vars == <<est, fwork, cwork, owork, op, pc, cell, shown, calls>>

Dim == 2
Of(s) == CHOOSE k \in s : TRUE
None == [kind |-> "none"]
-----------------------------------------------------------------------------
Init == /\ est = << >> /\ shown = << >> /\ calls = -1 /\ op = None /\ pc = "start"
        /\ fwork = << >> /\ cwork = << >> /\ owork = << >> /\ cell = Separate
Start ==
    /\ pc = "start" /\ pc' = "idle" /\ calls' = 0 /\ op' = op
    /\ est' \in [Filters -> Starts] /\ shown' = est' /\ cell' \in Sharings
    /\ \E n \in 1..Kinds :
         /\ fwork' = [f \in Filters |-> [px |-> Junk(Dim, 1, n), tP |-> Junk(Dim, Dim, n + 1)]]
         /\ cwork' = [c \in Controls |-> [BQ |-> Junk(Dim, Rows(c.u), n)]]
         /\ owork' = [m \in Observations |-> LET r == Rows(m.H) IN
              [y |-> Junk(r, 1, n), HP |-> Junk(r, Dim, n), S |-> Junk(r, r, n + 1), Si |-> Junk(r, r, n),
               PHt |-> Junk(Dim, r, n), K |-> Junk(Dim, r, n + 1), KHP |-> Junk(Dim, Dim, n)]]

Calling(o, first) == op' = o /\ pc' = first /\ UNCHANGED <<est, fwork, cwork, owork, cell, shown, calls>>
Begin ==
    /\ pc = "idle" /\ calls < Calls
    /\ \E f \in Filters :
         \/ \E A \in Trans, Q \in Noises : Calling([kind |-> "predict", f |-> f, A |-> A, Q |-> Q, factor |-> S1, g |-> None], "x")
         \/ \E A \in Trans, Q \in Noises, l \in Lambdas :
              Calling([kind |-> "tuned", f |-> f, A |-> A, Q |-> Q, factor |-> SInv(SMul(l, l)), g |-> None], "x")
         \/ \E g \in Functions, A \in Trans, Q \in Noises :
              Rows(g.W) = Dim /\ Calling([kind |-> "npredict", f |-> f, A |-> A, Q |-> Q, factor |-> S1, g |-> g], "x")
         \/ \E c \in Controls : Calling([kind |-> "control", f |-> f, c |-> c], "Bu")
         \/ \E m \in Observations : Calling([kind |-> "correct", f |-> f, o |-> m, g |-> None], "y")
         \/ \E m \in Observations, g \in Functions :
              Rows(g.W) = Rows(m.H) /\ Calling([kind |-> "ncorrect", f |-> f, o |-> m, g |-> g], "y")

(* the estimate, or a part of the working memory, is replaced *)
ToX(v) == est' = [est EXCEPT ![op.f].x = v] /\ UNCHANGED <<fwork, cwork, owork>>
ToP(v) == est' = [est EXCEPT ![op.f].P = v] /\ UNCHANGED <<fwork, cwork, owork>>
(* memory m, when v is written where it begins *)
Over(m, v) == Mat(Rows(m), Cols(m), LAMBDA i, j : LET k == (i - 1) * Cols(m) + j - 1
                                                  IN IF k < Rows(v) * Cols(v) THEN v[(k \div Cols(v)) + 1][(k % Cols(v)) + 1] ELSE m[i][j])
Shares(s, t) == s \in Temporary /\ t \in Temporary /\ cell # Separate /\ cell[s] = cell[t]
Seen(w, t, v) == [s \in DOMAIN w |-> IF Shares(s, t) THEN Over(w[s], v) ELSE w[s]]
To(work, o, t, v) == [k \in DOMAIN work |-> IF k = o THEN [Seen(work[k], t, v) EXCEPT ![t] = v] ELSE Seen(work[k], t, v)]
Others(work, t, v) == [k \in DOMAIN work |-> Seen(work[k], t, v)]
ToF(t, v) == fwork' = To(fwork, op.f, t, v) /\ cwork' = Others(cwork, t, v) /\ owork' = Others(owork, t, v) /\ UNCHANGED est
ToC(t, v) == cwork' = To(cwork, op.c, t, v) /\ fwork' = Others(fwork, t, v) /\ owork' = Others(owork, t, v) /\ UNCHANGED est
ToO(t, v) == owork' = To(owork, op.o, t, v) /\ fwork' = Others(fwork, t, v) /\ cwork' = Others(cwork, t, v) /\ UNCHANGED est
ToS(v) == owork' = [owork EXCEPT ![op.o].S = v] /\ UNCHANGED <<est, fwork, cwork>>
At(p) == pc = p
Then(p) == pc' = p /\ UNCHANGED <<op, cell, shown, calls>>
Return == pc' = "idle" /\ op' = None /\ calls' = calls + 1 /\ shown' = est' /\ UNCHANGED cell

E0 == est[op.f]
F == fwork[op.f]
C == cwork[op.c]
O == owork[op.o]
Apply(g, x) == Mat(Rows(g.W), 1, LAMBDA i, j : SAdd(SAdd(Dot(g.W[i], Transpose(x)[1]), g.c[i]), SMul(g.q, SMul(x[1][1], x[Rows(x)][1]))))

(* predictions *)
PredictSteps ==
    \/ At("x") /\ ToF("px", IF op.kind = "npredict" THEN Apply(op.g, E0.x)
                            ELSE IF Fault = "accumulates" THEN Add(F.px, Mul(op.A, E0.x)) ELSE Mul(op.A, E0.x)) /\ Then("copy")
    \/ At("copy") /\ ToX(F.px) /\ Then("AP")
    \/ At("AP") /\ ToF("tP", Mul(op.A, E0.P)) /\ Then("APA")
    \/ At("APA") /\ ToP(IF op.kind = "tuned" THEN Scale(op.factor, MulT(F.tP, op.A)) ELSE MulT(F.tP, op.A)) /\ Then("Q")
    \/ At("Q") /\ ToP(Add(op.Q, E0.P)) /\ Return
(* controls *)
ControlSteps ==
    \/ At("Bu") /\ ToX(Add(E0.x, Mul(op.c.B, op.c.u))) /\ Then("BQ")
    \/ At("BQ") /\ ToC("BQ", Mul(op.c.B, op.c.Q)) /\ Then("BQB")
    \/ At("BQB") /\ ToP(Add(E0.P, MulT(C.BQ, op.c.B))) /\ Return
(* corrections *)
CorrectSteps ==
    \/ At("y") /\ ToO("y", IF op.kind = "ncorrect" THEN Apply(op.g, E0.x) ELSE Mul(op.o.H, E0.x)) /\ Then("z")
    \/ At("z") /\ ToO("y", Sub(op.o.z, O.y)) /\ Then("HP")
    \/ At("HP") /\ ToO("HP", Mul(op.o.H, E0.P)) /\ Then("HPH")
    \/ At("HPH") /\ ToO("S", MulT(O.HP, op.o.H)) /\ Then("R")
    \/ At("R") /\ ToO("S", Add(O.S, op.o.R)) /\ Then("decompose")
    \/ At("decompose") /\ IF AllPivots(O.S) THEN ToO("Si", Inverse(O.S)) /\ Then("factor")
                          ELSE IF Fault = "no look back" THEN ToS(O.S) /\ Then("PHt")
                          ELSE IF Fault = "gives up late" THEN ToX(Add(E0.x, Mul(O.K, O.y))) /\ Return
                          ELSE ToS(Junk(Rows(O.S), Rows(O.S), 2)) /\ Return      \* refused
    \/ At("factor") /\ ToS(Junk(Rows(O.S), Rows(O.S), 1)) /\ Then("PHt")     \* the factor is left where S was
    \/ At("PHt") /\ ToO("PHt", MulT(E0.P, op.o.H)) /\ Then("K")
    \/ At("K") /\ ToO("K", IF Fault = "old gain" /\ calls > 0 THEN O.K ELSE Mul(O.PHt, O.Si)) /\ Then("Ky")
    \/ At("Ky") /\ IF Fault = "wrong filter" THEN est' = [est EXCEPT ![Of(Filters)].x = Add(E0.x, Mul(O.K, O.y))] /\ UNCHANGED <<fwork, cwork, owork>> /\ Then("HP2")
                   ELSE ToX(Add(E0.x, Mul(O.K, O.y))) /\ Then("HP2")
    \/ At("HP2") /\ Fault = "no second HP" /\ ToS(O.S) /\ Then("KHP")
    \/ At("HP2") /\ Fault # "no second HP" /\ ToO("HP", IF Fault = "sees the new state" THEN Scale(E0.x[1][1], Mul(op.o.H, E0.P)) ELSE Mul(op.o.H, E0.P)) /\ Then("KHP")
    \/ At("KHP") /\ ToO("KHP", Mul(O.K, O.HP)) /\ Then("P")
    \/ At("P") /\ ToP(Sub(E0.P, O.KHP)) /\ Return
Step == op # None /\ (PredictSteps \/ ControlSteps \/ CorrectSteps)
Next == Start \/ Begin \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

Model == INSTANCE KalmanModel WITH est <- shown
Refines == Model!Spec
Returns == (pc # "idle" /\ calls >= 0) ~> (pc = "idle")
(* only one estimate at a time is in between *)
OthersKept == op # None => \A f \in Filters \ {op.f} : est[f] = shown[f]
=============================================================================
