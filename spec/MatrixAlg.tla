------------------------------ MODULE MatrixAlg ------------------------------
(* The elementary operations on matrices kept row by row in storage that may *)
(* be longer than needed, as loops over positions in that storage, one       *)
(* element written at a time.  What MatrixTrace demands of the code are the  *)
(* results (LinAlg); here it is checked that loops of this kind achieve      *)
(* them, read nothing outside of their operands, write nothing outside of    *)
(* the result, and end.                                                      *)
(* Elements are positions (from 0) so that storage is a function on 0..n-1.  *)
EXTENDS LinAlg, Integers, Sequences, FiniteSets
CONSTANTS Shapes,          \* triples: A is r x k, B is k x u (or u x k), C is r x u
          Surplus,         \* by how much storage is longer
          Contents(_, _)   \* the matrices of a given shape to try

VARIABLES op, sh, A, B, sa, sb, sc, was, n, pc
vars == <<op, sh, A, B, sa, sb, sc, was, n, pc>>
Ops == {"mult", "mult_transb", "multadd_transb", "multscale_transb", "mult_rowvector", "multadd_rowvector",
        "copy", "add_b", "sub_b", "sub", "column", "row"}
R == sh[1]
K == sh[2]
U == sh[3]
Two == SAdd(S1, S1)
(* row after row; what is behind is not to be read *)
Store(M, more) == [p \in 0..(Rows(M) * Cols(M) + more - 1) |->
                     IF p < Rows(M) * Cols(M) THEN M[(p \div Cols(M)) + 1][(p % Cols(M)) + 1] ELSE "surplus"]
View(s, r, c) == Mat(r, c, LAMBDA i, j : s[(i - 1) * c + j - 1])
Elementwise(o) == o \in {"copy", "add_b", "sub_b", "sub"}
Vector(o) == o \in {"mult_rowvector", "multadd_rowvector"}
Turned(o) == o \in {"mult_transb", "multadd_transb", "multscale_transb"}
(* shapes of B and C *)
ShapeB(o, s) == IF Turned(o) THEN <<s[3], s[2]>> ELSE IF Elementwise(o) THEN <<s[1], s[2]>> ELSE <<s[2], s[3]>>
ShapeC(o, s) == IF Elementwise(o) THEN <<s[1], s[2]>> ELSE IF o = "column" THEN <<s[1], 1>> ELSE IF o = "row" THEN <<1, s[2]>> ELSE <<s[1], s[3]>>

Init == /\ op = "none" /\ sh = << >> /\ A = << >> /\ B = << >> /\ sa = << >> /\ sb = << >> /\ sc = << >> /\ was = << >> /\ n = 0 /\ pc = "choose"
Choose ==
    /\ pc = "choose" /\ pc' = "loop" /\ n' = 0
    /\ \E o \in Ops, s \in Shapes, m \in Surplus :
         /\ Vector(o) => s[3] = 1
         /\ op' = o /\ sh' = s
         /\ \E M \in Contents(s[1], s[2]), N \in Contents(ShapeB(o, s)[1], ShapeB(o, s)[2]) :
              /\ A' = M /\ B' = N /\ sa' = Store(M, m) /\ sb' = Store(N, m)
         /\ sc' = Store(Mat(ShapeC(o, s)[1], ShapeC(o, s)[2], LAMBDA i, j : IF i = j THEN S1 ELSE Two), m)
         /\ was' = sc'

RECURSIVE SumOf(_, _, _)
SumOf(f(_), a, b) == IF a > b THEN S0 ELSE SAdd(f(a), SumOf(f, a + 1, b))
(* What the n-th step writes, and where. *)
Last == ShapeC(op, sh)[1] * ShapeC(op, sh)[2]
Put(p, v) == sc' = [sc EXCEPT ![p] = v]
Products == /\ op = "mult"                  \* column after column, from the last one
            /\ LET j == U - 1 - (n \div R)
                   i == n % R
               IN Put(i * U + j, SumOf(LAMBDA k : SMul(sa[i * K + k], sb[k * U + j]), 0, K - 1))
Turning == /\ Turned(op)                    \* the index into B runs on
           /\ LET a0 == (n \div U) * K
                  b0 == (n % U) * K
                  s == SumOf(LAMBDA k : SMul(sa[a0 + k], sb[b0 + k]), 0, K - 1)
              IN Put(n, IF op = "multadd_transb" THEN SAdd(sc[n], s) ELSE IF op = "multscale_transb" THEN SMul(s, Two) ELSE s)
Vectors == /\ Vector(op)                    \* the first product starts the sum
           /\ LET s == SAdd(SMul(sa[n * K], sb[0]), SumOf(LAMBDA k : SMul(sa[n * K + k], sb[k]), 1, K - 1))
              IN Put(n, IF op = "multadd_rowvector" THEN SAdd(sc[n], s) ELSE s)
Elements == /\ Elementwise(op)              \* from the last to the first; the result may be B itself
            /\ LET p == R * K - 1 - n
               IN Put(p, IF op = "copy" THEN sa[p] ELSE IF op = "add_b" THEN SAdd(sc[p], sa[p])
                         ELSE IF op = "sub_b" THEN SSub(sa[p], sc[p]) ELSE SSub(sa[p], sb[p]))
(* the last column or row, into a vector, from its end *)
Columns == /\ op = "column" /\ LET i == R - 1 - n IN Put(i, sa[i * K + K - 1])
RowsOf == /\ op = "row" /\ LET j == K - 1 - n IN Put(j, sa[R * K - 1 - n])
Loop == /\ pc = "loop"
        /\ Products \/ Turning \/ Vectors \/ Elements \/ Columns \/ RowsOf
        /\ n' = n + 1 /\ pc' = IF n + 1 = Last THEN "done" ELSE "loop"
        /\ UNCHANGED <<op, sh, A, B, sa, sb, was>>
Next == Choose \/ Loop
Spec == Init /\ [][Next]_vars /\ WF_vars(Loop)

C0 == View(was, ShapeC(op, sh)[1], ShapeC(op, sh)[2])
Wanted ==
    CASE op = "mult" -> Mul(A, B)
      [] op = "mult_transb" -> Mul(A, Transpose(B))
      [] op = "multadd_transb" -> Add(C0, Mul(A, Transpose(B)))
      [] op = "multscale_transb" -> Scale(Two, Mul(A, Transpose(B)))
      [] op = "mult_rowvector" -> Mul(A, B)
      [] op = "multadd_rowvector" -> Add(C0, Mul(A, B))
      [] op = "copy" -> A
      [] op = "add_b" -> Add(A, C0)
      [] op = "sub_b" -> Sub(A, C0)
      [] op = "sub" -> Sub(A, B)
      [] op = "column" -> Mat(R, 1, LAMBDA i, j : A[i][K])
      [] op = "row" -> << A[R] >>
Right == pc = "done" => MatEq(View(sc, ShapeC(op, sh)[1], ShapeC(op, sh)[2]), Wanted)
(* every position at most once, and none that does not belong to the result *)
Frame == pc # "choose" => /\ DOMAIN sc = DOMAIN was
                          /\ \A p \in DOMAIN sc : p >= Last => sc[p] = "surplus"
Ends == (pc = "loop") ~> (pc = "done")
=============================================================================
