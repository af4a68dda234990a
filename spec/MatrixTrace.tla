----------------------------- MODULE MatrixTrace -----------------------------
(* Conformance of recorded executions with the specification of matrices.    *)
(*                                                                           *)
(* obj[m] = [r, c, fact]: a matrix m of r rows and c columns; fact is the    *)
(* matrix that m holds the Cholesky factor of, or << >>.  mem[m] is m's      *)
(* whole storage; its first r*c elements are the matrix, row by row.         *)
(*                                                                           *)
(* Aspects: "arith" (products, sums, copies), "access" (element, row, column *)
(* and bulk accessors, dimensions), "chol", "inv", "frame", "surplus".       *)
EXTENDS TraceBase

R(m) == obj[m].r
C(m) == obj[m].c
Mx(m) == FromFlat(mem[m], R(m), C(m))
Nx(m) == FromFlat(Cur(m), R(m), C(m))
Extent(m) == R(m) * C(m)
(* the elements of m, as recorded *)
Elems(m) == SubSeq(mem[m], 1, Extent(m))
NewElems(m) == SubSeq(Cur(m), 1, Extent(m))
At(m, i, j) == mem[m][i * C(m) + j + 1]                 \* row i, column j, counted from 0
Pos(m, i, j) == i * C(m) + j + 1

(* Every matrix that changed holds no known factor any more. *)
AdoptMx == /\ mem' = [n \in DOMAIN mem |-> Cur(n)]
           /\ obj' = [n \in DOMAIN obj |-> IF n \in DOMAIN E.d THEN [obj[n] EXCEPT !.fact = << >>] ELSE obj[n]]
           /\ UNCHANGED cfg

NewMatrix == /\ IsEvent("mat")
             /\ obj' = (E.o :> [r |-> E.r, c |-> E.c, fact |-> << >>]) @@ obj
             /\ mem' = (E.o :> E.v) @@ mem
             /\ cfg' = [cfg EXCEPT !.ext = (E.o :> E.r * E.c) @@ @]
(* The harness writes a matrix of the user's (not through the library). *)
Put == /\ IsEvent("put")
       /\ AdoptMx

-----------------------------------------------------------------------------
(* Arithmetic: one event per call, with operands a, b and destination to.    *)
Want ==
    CASE E.op \in {"mult", "mult_buffered", "mult_rowvector"} -> Mul(Mx(E.a), Mx(E.b))
      [] E.op = "multadd_rowvector" -> Add(Mx(E.to), Mul(Mx(E.a), Mx(E.b)))
      [] E.op = "mult_transb" -> MulT(Mx(E.a), Mx(E.b))
      [] E.op = "multadd_transb" -> Add(Mx(E.to), MulT(Mx(E.a), Mx(E.b)))
      [] E.op = "multscale_transb" -> Scale(SLift(E.s), MulT(Mx(E.a), Mx(E.b)))
      [] E.op \in {"sub", "sub_inplace_a", "sub_inplace_b"} -> Sub(Mx(E.a), Mx(E.b))
      [] E.op \in {"add_inplace_a", "add_inplace_b"} -> Add(Mx(E.a), Mx(E.b))
Magnitude ==
    CASE E.op \in {"mult", "mult_buffered", "mult_rowvector"} -> Mul(Mag(Mx(E.a)), Mag(Mx(E.b)))
      [] E.op = "multadd_rowvector" -> Add(Mag(Mx(E.to)), Mul(Mag(Mx(E.a)), Mag(Mx(E.b))))
      [] E.op = "mult_transb" -> MulT(Mag(Mx(E.a)), Mag(Mx(E.b)))
      [] E.op = "multadd_transb" -> Add(Mag(Mx(E.to)), MulT(Mag(Mx(E.a)), Mag(Mx(E.b))))
      [] E.op = "multscale_transb" -> Scale(SAdd(SAbs(SLift(E.s)), Fl), MulT(Mag(Mx(E.a)), Mag(Mx(E.b))))
      [] OTHER -> Add(Mag(Mx(E.a)), Mag(Mx(E.b)))
Accumulates == E.op \in {"multadd_rowvector", "multadd_transb"}
Arith ==
    /\ IsEvent("op")
    /\ Judge("arith") =>
         IF E.op = "copy"
         THEN Count("value") /\ Check(NewElems(E.to) = Elems(E.a), <<E.op, "expected", Elems(E.a), "got", NewElems(E.to)>>)
         ELSE (AllNum(Mx(E.a)) /\ AllNum(Mx(E.b)) /\ (Accumulates => AllNum(Mx(E.to)))) =>
              Conform(Nx(E.to), Want, IF Approx THEN Magnitude ELSE << >>, <<E.op, E.a, E.b, E.to>>)
    /\ Frame({E.to}, E.op)
    /\ SurplusKept
    /\ AdoptMx

-----------------------------------------------------------------------------
(* Access.  A read delivers E.v; a write stores at the named positions.      *)
ReadWant ==
    CASE E.op = "element" -> << At(E.a, E.i, E.j) >>                \* get, get_at, get_row, get_col, get_value
      [] E.op = "index" -> << mem[E.a][E.i + 1] >>                  \* by position
      [] E.op = "row" -> [j \in 1..C(E.a) |-> At(E.a, E.i, j - 1)]
      [] E.op = "column" -> [i \in 1..R(E.a) |-> At(E.a, i - 1, E.j)]
      [] E.op = "all" -> Elems(E.a)                                  \* the slice
      [] E.op = "dims" -> << R(E.a), C(E.a), Extent(E.a), Len(mem[E.a]), IF Extent(E.a) = 0 THEN 1 ELSE 0, IF Extent(E.a) <= Len(mem[E.a]) THEN 1 ELSE 0 >>
Access == /\ IsEvent("read")
          /\ Frame({}, E.op)
          /\ Judge("access") => Count("access") /\ Check(E.v = ReadWant, <<"read", E.via, E.op, E.a, "expected", ReadWant, "got", E.v>>)
          /\ SurplusKept
          /\ AdoptMx

Put1(s, k, v) == [s EXCEPT ![k] = v]
Square(m, f(_, _)) == [k \in 1..Extent(m) |-> f((k - 1) \div C(m), (k - 1) % C(m))]
WriteWant ==
    CASE E.op = "element" -> Put1(Elems(E.a), Pos(E.a, E.i, E.j), E.s)
      [] E.op = "index" -> Put1(Elems(E.a), E.i + 1, E.s)
      [] E.op = "symmetric" -> Put1(Put1(Elems(E.a), Pos(E.a, E.i, E.j), E.s), Pos(E.a, E.j, E.i), E.s)
      [] E.op = "fill" -> [k \in 1..Extent(E.a) |-> E.s]
      [] E.op = "diagonal" -> Square(E.a, LAMBDA i, j : IF i = j THEN E.s ELSE At(E.a, i, j))
      [] E.op = "comatrix" -> Square(E.a, LAMBDA i, j : IF i = j THEN E.s ELSE E.off)
Write == /\ IsEvent("write")
         /\ Frame({E.a}, E.op)
         /\ Judge("access") => Count("access") /\ Check(NewElems(E.a) = WriteWant, <<"write", E.via, E.op, E.a, "expected", WriteWant, "got", NewElems(E.a)>>)
         /\ SurplusKept
         /\ AdoptMx

-----------------------------------------------------------------------------
(* Cholesky decomposition in place, E.ret says whether it reported success.  *)
Lead(A, k) == Mat(k, k, LAMBDA i, j : A[i][j])
(* how far rounding can move pivot k of A: about ||A|| (1 + ||w||)^2 rel,    *)
(* with w the weights that eliminate row k                                   *)
Slack(A, k) ==
    LET w == IF k = 1 THEN S0
             ELSE SumTo([j \in 1..(k - 1) |-> SAbs(Mul(Inverse(Lead(A, k - 1)), Mat(k - 1, 1, LAMBDA i, jj : A[i][k]))[j][1])], k - 1)
         g == SAdd(S1, w)
     IN  SMul(SLift(cfg.crel), SMul(NormInf(Mag(A)), SMul(g, g)))
ClearlyPos(A, p) == \A k \in 1..Len(p) : SPos(p[k]) /\ (E.exact \/ SLeq(Slack(A, k), p[k]))
ClearlyNot(A, p) == LET k == Len(p) IN
    /\ ~SPos(p[k])
    /\ \A i \in 1..(k - 1) : E.exact \/ SLeq(Slack(A, i), p[i])
    /\ E.exact \/ SLeq(p[k], SSub(S0, Slack(A, k)))
LowerTri(L) == \A i \in 1..Rows(L) : \A j \in (i + 1)..Rows(L) : SEq(L[i][j], S0)
FactorOf(L, A) ==
    /\ Check(IsNumMat(L) /\ LowerTri(L), <<"factor is not lower triangular", NewElems(E.a)>>)
    /\ Check(\A i \in 1..Rows(L) : SPos(L[i][i]), <<"factor has a diagonal element that is not positive", NewElems(E.a)>>)
    /\ Conform(MulT(L, L), A, IF Approx THEN Mat(Rows(A), Rows(A), LAMBDA i, j : NormInf(Mag(A))) ELSE << >>, <<"L L^T">>)
Cholesky ==
    /\ IsEvent("chol")
    /\ Frame({E.a}, "cholesky")
    /\ SurplusKept
    /\ LET A == Mx(E.a)
           p == PivotsFrom(A, 1)
       IN /\ (Judge("chol") /\ IsNumMat(A)) =>
                IF ~Approx \/ E.exact
                THEN /\ Check(E.ret = AllPivots(A), <<"cholesky returned", E.ret, "for", Elems(E.a)>>)
                     /\ Count(IF E.ret THEN "cholesky succeeds" ELSE "cholesky refuses")
                ELSE IF ClearlyPos(A, p) THEN Count("cholesky succeeds") /\ Check(E.ret, <<"cholesky refused", Elems(E.a)>>)
                ELSE IF ClearlyNot(A, p) THEN Count("cholesky refuses") /\ Check(~E.ret, <<"cholesky accepted", Elems(E.a)>>)
                ELSE Count("cholesky undecided")
          (* the factor lies in the base field when all pivots are squares *)
          /\ (Judge("chol") /\ IsNumMat(A) /\ E.ret /\ AllPivots(A) /\ \A k \in 1..Len(p) : IsSquare(p[k])) =>
                Count("cholesky factor") /\ FactorOf(Nx(E.a), A)
          /\ mem' = [n \in DOMAIN mem |-> Cur(n)]
          /\ obj' = [obj EXCEPT ![E.a].fact = IF E.ret /\ IsNumMat(A) THEN A ELSE << >>]
          /\ UNCHANGED cfg
(* The inverse of the matrix that E.a holds the factor of, written to E.to.  *)
Invert ==
    /\ IsEvent("inv")
    /\ Frame({E.to}, "invert")
    /\ SurplusKept
    /\ LET A == obj[E.a].fact IN
       (Judge("inv") /\ A # << >>) =>
          IF ~AllPivots(A) THEN TRUE ELSE
          LET X == Inverse(A)
              n == NormInf(Mag(X))
              k == SMul(NormInf(Mag(A)), n)
          IN  IF ~Approx THEN Count("inverse") /\ Conform(Nx(E.to), X, << >>, "inverse")
              ELSE IF ~SLeq(k, SLift(cfg.kmax)) THEN Count("value skipped: ill-conditioned")
              ELSE /\ Count("inverse")
                   /\ Check(IsNumMat(Nx(E.to)) /\ SymTo(Nx(E.to), SMul(SLift(cfg.rel), SMul(k, n))), <<"inverse is not symmetric", Cur(E.to)>>)
                   /\ Conform(Nx(E.to), X, Mat(Rows(X), Rows(X), LAMBDA i, j : SMul(k, n)), "inverse")
    /\ AdoptMx

Next == \/ Begin \/ NewMatrix \/ Put \/ Arith \/ Access \/ Write \/ Cholesky \/ Invert \/ Panic \/ Final
Spec == Init /\ [][Next]_vars
=============================================================================
