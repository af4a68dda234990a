------------------------------ MODULE TraceBase ------------------------------
(* What the trace specifications have in common: a recorded execution is a   *)
(* sequence of events, each of which has to be a step of the specification.  *)
(* `mem` holds the storage of every buffer that exists, in recorded form;    *)
(* an event carries the operation's arguments and in e.d every buffer whose  *)
(* storage changed during the call.  A buffer that is not in e.d kept its    *)
(* contents bit for bit.                                                     *)
(*                                                                           *)
(* A property's check judges a set of aspects of the trace (cfg.judge); what *)
(* is not judged is adopted from the trace.                                  *)
EXTENDS KalmanCore, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Approx,       \* FALSE: exact scalars; TRUE: rounded scalars, compared with a tolerance
          SLeq(_, _), SAbs(_), IsScalar(_), SStr(_),
          IsSquare(_)   \* has a square root among the scalars

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,     \* next line of the trace
          cfg,   \* the settings of the current scenario
          obj,   \* name -> [k |-> kind, S |-> states, M |-> inputs or measurements]
          mem    \* buffer name -> contents of its storage
vars == <<l, cfg, obj, mem>>

-----------------------------------------------------------------------------
E == Trace[l]
IsEvent(n) == l <= Len(Trace) /\ Trace[l].e = n /\ l' = l + 1
Judge(a) == a \in cfg.judge
Check(ok, what) == IF ok THEN TRUE ELSE PrintT(<<"REJECT", l, what>>) /\ FALSE

(* Statistics, for the evidence: how often each judgement was made. *)
Stats == <<"value", "value skipped: not a number", "value skipped: ill-conditioned", "degenerate", "covariance",
           "covariance skipped: premise", "same", "same skipped: premise", "frame",
           "access", "cholesky succeeds", "cholesky refuses", "cholesky undecided", "cholesky factor", "inverse", "construction", "size", "beyond", "initial", "scalar", "view", "heap">>
Count(what) == LET k == CHOOSE i \in 1..Len(Stats) : Stats[i] = what IN TLCSet(k, TLCGet(k) + 1)

V(d)    == FromFlat(d, Len(d), 1)
Cur(n)  == IF n \in DOMAIN E.d THEN E.d[n] ELSE mem[n]
AdoptMem == mem' = [n \in DOMAIN mem |-> Cur(n)] /\ UNCHANGED obj
Adopt    == AdoptMem /\ UNCHANGED cfg

IsNumMat(A) == \A i \in 1..Rows(A) : \A j \in 1..Cols(A) : IsScalar(A[i][j])
AllNum(A) == IsNumMat(A) \/ (Count("value skipped: not a number") /\ FALSE)

-----------------------------------------------------------------------------
(* Magnitudes, for tolerances: |a| plus the absolute resolution of the type  *)
(* in units of its relative precision (cfg.floor; 0 for floating point).     *)
Fl       == SLift(cfg.floor)
Mag(A)   == Mat(Rows(A), Cols(A), LAMBDA i, j : SAdd(SAbs(A[i][j]), Fl))
SMax(a, b) == IF SLeq(a, b) THEN b ELSE a
RECURSIVE MaxTo(_, _)
MaxTo(s, k) == IF k = 1 THEN s[1] ELSE SMax(s[k], MaxTo(s, k - 1))
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN S0 ELSE SAdd(s[k], SumTo(s, k - 1))
RowSum(A, i) == SumTo(A[i], Cols(A))
NormInf(A) == MaxTo([i \in 1..Rows(A) |-> RowSum(A, i)], Rows(A))

(* got equals want, up to cfg.rel times scale in the rounded types *)
Conform(got, want, scale, what) ==
    Count("value") /\
    IF ~Approx THEN Check(MatEq(got, want), <<what, "expected", want, "got", got>>)
    ELSE \A i \in 1..Rows(want) : \A j \in 1..Cols(want) :
            Check(SLeq(SAbs(SSub(got[i][j], want[i][j])), SMul(SLift(cfg.rel), scale[i][j])),
                  <<what, i, j, "expected", SStr(want[i][j]), "got", SStr(got[i][j]), "scale", SStr(scale[i][j])>>)

(* Only the named buffers may change, and only within the matrix's extent;   *)
(* and all memory there is was there before: no call allocates or frees any. *)
Frame(names, what) ==
    /\ Judge("frame") => Count("frame") /\ Check(DOMAIN E.d \subseteq names, <<what, "changed", DOMAIN E.d \ names>>)
    /\ (Judge("heap") /\ "heap" \in DOMAIN E) => Count("heap") /\ Check(E.heap = 0, <<what, "used the heap", E.heap, "times">>)
Beyond(s, n) == IF Len(s) <= n THEN << >> ELSE SubSeq(s, n + 1, Len(s))
SurplusKept ==
    Judge("surplus") =>
        \A n \in DOMAIN E.d : LET k == cfg.ext[n] IN
            Check(Len(E.d[n]) = Len(mem[n]) /\ Beyond(E.d[n], k) = Beyond(mem[n], k), <<"surplus of", n, "changed">>)

-----------------------------------------------------------------------------
(* Laws about the covariance of an estimate (C09). *)
(* An approximately positive semidefinite matrix: positive definite once     *)
(* shifted by the rounding allowance.                                        *)
Allow(scale) == SMul(SLift(cfg.crel), NormInf(scale))
Shifted(A, a) == Mat(Rows(A), Rows(A), LAMBDA i, j : IF i = j THEN SAdd(A[i][j], a) ELSE A[i][j])
SymTo(A, a) == \A i \in 1..Rows(A) : \A j \in 1..(i - 1) : SLeq(SAbs(SSub(A[i][j], A[j][i])), a)
IsZero(A) == \A i \in 1..Rows(A) : \A j \in 1..Cols(A) : SEq(A[i][j], S0)
Psd(A, a) == IsZero(A) \/ AllPivots(Shifted(Symmetrize(A), a))
CovTo(A, a) == IF Approx THEN IsNumMat(A) /\ SymTo(A, a) /\ Psd(A, a) ELSE IsSymmetric(A)
(* what is known of the arguments is taken to hold much more precisely       *)
CovOk(A) == IsNumMat(A) /\ CovTo(A, IF Approx THEN SMul(SLift(cfg.prec), NormInf(Mag(A))) ELSE S0)

-----------------------------------------------------------------------------
Begin == /\ IsEvent("begin")
         /\ cfg' = [judge |-> {E.judge[i] : i \in 1..Len(E.judge)}, rel |-> E.rel, crel |-> E.crel, prec |-> E.prec,
                    floor |-> E.floor, kmax |-> E.kmax, clear |-> E.clear, ext |-> << >>, bad |-> FALSE]
         /\ obj' = << >>
         /\ mem' = << >>

(* A call that did not return; the scenario ends with it. *)
Panic == /\ IsEvent("panic")
         /\ Check(~Judge(E.op), <<"panic in", E.op, E.msg>>)
         /\ UNCHANGED <<obj, mem, cfg>>

(* The storages of dropped objects, inspected after their last use.          *)
Final == /\ IsEvent("final")
         /\ Judge("surplus") => \A n \in DOMAIN E.b :
                Check(Beyond(E.b[n], E.n[n]) = Beyond(E.was[n], E.n[n]), <<"surplus of", n, "changed from", E.was[n], "to", E.b[n]>>)
         /\ UNCHANGED <<obj, mem, cfg>>

Init == (\A k \in 1..Len(Stats) : TLCSet(k, 0)) /\ l = 1 /\ cfg = << >> /\ obj = << >> /\ mem = << >>

(* every line of the trace is a step of the specification *)
TraceAccepted == /\ \A k \in 1..Len(Stats) : TLCGet(k) > 0 => PrintT(<<"COUNT", Stats[k], TLCGet(k)>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
