---------------------------- MODULE NalgebraTrace ----------------------------
(* Conformance of matrices seen through nalgebra: whatever nalgebra shows of *)
(* a matrix is what the matrix holds at that row and column.  nalgebra lists *)
(* the elements of a matrix column by column.                                *)
(*                                                                           *)
(* Aspects: "view" (shapes, elements, combinations), "flat" (the memory of a *)
(* view as one piece), "beyond", "frame".                                    *)
EXTENDS MatrixTrace

(* column by column: the window of h rows and w columns at row i, column j   *)
Listed(i, j, h, w) == [k \in 1..(h * w) |-> At(E.a, i + ((k - 1) % h), j + ((k - 1) \div h))]
ByColumn == Listed(0, 0, R(E.a), C(E.a))
Shown ==
    LET q == E.q IN
    CASE E.op = "element" -> << At(E.a, q[1], q[2]) >>
      [] E.op = "row" -> Listed(q[1], 0, 1, C(E.a))
      [] E.op = "column" -> Listed(0, q[2], R(E.a), 1)
      [] E.op = "window" -> Listed(q[1], q[2], q[3], q[4])
      [] E.op = "all" -> ByColumn
      [] E.op = "transposed" -> Elems(E.a)                 \* the transpose by columns is the matrix by rows
Shows == /\ IsEvent("shows")
         /\ Frame({}, E.via)
         /\ Judge("view") => Count("view") /\ Check(E.v = Shown, <<"nalgebra", E.via, E.op, E.q, "of", R(E.a), C(E.a), "expected", Shown, "got", E.v>>)
         /\ AdoptMx
NShape == /\ IsEvent("nshape")
          /\ Judge("view") => Count("view") /\ LET r == R(E.a) c == C(E.a)
                                  t == << r, c, r * c, r, c, IF r * c = 0 THEN 1 ELSE 0, IF r = c THEN 1 ELSE 0 >>
                              IN  Check(E.v = t, <<"nalgebra shape", E.v, "instead of", t>>)
          /\ UNCHANGED <<obj, mem, cfg>>

(* The matrix together with an ordinary nalgebra matrix of elements E.b      *)
Combined ==
    /\ IsEvent("combined")
    /\ Frame({}, E.via)
    /\ Judge("view") =>
         LET a == ByColumn IN
         IF E.op = "left" THEN Count("view") /\ Check(E.v = a, <<"nalgebra", E.via, "saw", E.v, "instead of", a>>)
         ELSE IF E.op = "right" THEN Count("view") /\ Check(E.v = E.b, <<"nalgebra", E.via, "saw", E.v, "instead of", E.b>>)
         ELSE LET A == V(a)
                  B == V(E.b)
                  W == CASE E.op = "sum" -> Add(A, B)
                         [] E.op = "difference" -> Sub(A, B)
                         [] E.op = "product" -> [k \in 1..Len(A) |-> << SMul(A[k][1], B[k][1]) >>]
              IN  (AllNum(A) /\ AllNum(B)) => Conform(V(E.v), W, IF Approx THEN Add(Mag(A), Mag(B)) ELSE << >>, <<"nalgebra", E.op, E.via>>)
    /\ AdoptMx
Equal ==
    /\ IsEvent("equal")
    /\ Frame({}, E.via)
    /\ Judge("view") => LET same == \A k \in 1..Extent(E.a) : SEq(SLift(ByColumn[k]), SLift(E.b[k])) IN
          Count("view") /\ Check(E.yes = same, <<"nalgebra", E.via, E.yes, "instead of", same>>)
    /\ AdoptMx

(* nalgebra promises that the elements of a view are ordered column by       *)
(* column in memory.  The library's are ordered row by row, which for more   *)
(* than one row and column is a known finding; any other order is not.       *)
Flat ==
    /\ IsEvent("flat")
    /\ Judge("flat") =>
         /\ Count("view")
         /\ IF E.v = ByColumn THEN TRUE ELSE
            IF E.v = Elems(E.a) THEN PrintT(<<"FINDING", "nalgebra-row-by-row">>)
            ELSE Check(FALSE, <<"nalgebra", E.via, "of", R(E.a), C(E.a), "expected", ByColumn, "got", E.v>>)
    /\ AdoptMx

(* An access beyond too short a storage must stop.                           *)
Outside == /\ IsEvent("beyond")
           /\ Judge("beyond") => Count("beyond") /\ Check(E.i < Len(mem[E.a]) \/ ~E.ok, <<E.via, "beyond the storage of", E.a, "at", E.i>>)
           /\ AdoptMx

NalgebraNext == Next \/ Shows \/ NShape \/ Combined \/ Equal \/ Flat \/ Outside
NalgebraSpec == Init /\ [][NalgebraNext]_vars
=============================================================================
