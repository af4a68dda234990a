------------------------------- MODULE LinAlg -------------------------------
(* Linear algebra over an abstract scalar type.  A matrix is a non-empty     *)
(* sequence of rows, a vector is an n x 1 matrix.  The scalar operations are *)
(* constants: they are instantiated with a finite field (GF) or with exact   *)
(* rationals (BigRat).                                                       *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

CONSTANTS S0, S1, SAdd(_, _), SSub(_, _), SMul(_, _), SInv(_), SEq(_, _),
          SPos(_),    \* usable as a pivot: positive, or non-zero in a finite field
          SLift(_)    \* a scalar from its recorded form

Rows(M) == Len(M)
Cols(M) == Len(M[1])

(* TLCEval only forces TLC to compute a function eagerly; it is the identity *)
Mat(r, c, f(_, _)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> f(i, j)])])

(* row-major: element (i, j) of an r x c matrix is at position (i-1)*c + j   *)
FromFlat(d, r, c) == Mat(r, c, LAMBDA i, j : SLift(d[(i - 1) * c + j]))

RECURSIVE DotTo(_, _, _, _)
DotTo(a, b, k, acc) == IF k = 0 THEN acc ELSE DotTo(a, b, k - 1, SAdd(acc, SMul(a[k], b[k])))
Dot(a, b) == DotTo(a, b, Len(a), S0)                            \* of two rows

MulT(A, B)  == Mat(Rows(A), Rows(B), LAMBDA i, j : Dot(A[i], B[j]))     \* A B^T
Transpose(A) == Mat(Cols(A), Rows(A), LAMBDA i, j : A[j][i])
Mul(A, B)   == MulT(A, Transpose(B))
Add(A, B)   == Mat(Rows(A), Cols(A), LAMBDA i, j : SAdd(A[i][j], B[i][j]))
Sub(A, B)   == Mat(Rows(A), Cols(A), LAMBDA i, j : SSub(A[i][j], B[i][j]))
Scale(s, A) == Mat(Rows(A), Cols(A), LAMBDA i, j : SMul(s, A[i][j]))
Identity(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN S1 ELSE S0)
ZeroMat(r, c) == Mat(r, c, LAMBDA i, j : S0)
Quad(A, P)  == MulT(Mul(A, P), A)                               \* A P A^T

MatEq(A, B) == /\ Rows(A) = Rows(B) /\ Cols(A) = Cols(B)
               /\ \A i \in 1..Rows(A) : \A j \in 1..Cols(A) : SEq(A[i][j], B[i][j])
IsSymmetric(A) == \A i \in 1..Rows(A) : \A j \in 1..(i - 1) : SEq(A[i][j], A[j][i])
Symmetrize(A) == Mat(Rows(A), Rows(A), LAMBDA i, j : IF i <= j THEN A[i][j] ELSE A[j][i])

(* Elimination without pivoting on the first k columns of an augmented       *)
(* matrix; it succeeds exactly when all leading principal minors are         *)
(* invertible, which is what a Cholesky decomposition needs as well.         *)
RECURSIVE Eliminate(_, _)
Eliminate(M, k) ==
    IF k > Rows(M) THEN M
    ELSE LET p == SInv(M[k][k])
             R == TLCEval([j \in 1..Cols(M) |-> SMul(p, M[k][j])])
             N == Mat(Rows(M), Cols(M), LAMBDA i, j :
                        IF i = k THEN R[j] ELSE SSub(M[i][j], SMul(M[i][k], R[j])))
         IN  Eliminate(N, k + 1)
Inverse(A) ==
    LET n == Rows(A)
        E == Eliminate(Mat(n, 2 * n, LAMBDA i, j : IF j <= n THEN A[i][j]
                                                   ELSE IF j - n = i THEN S1 ELSE S0), 1)
    IN  Mat(n, n, LAMBDA i, j : E[i][j + n])

(* The pivots of the elimination (the diagonal D of A = L D L^T); the list   *)
(* ends with the first pivot that is not usable.                             *)
RECURSIVE PivotsFrom(_, _)
PivotsFrom(M, k) ==
    IF k > Rows(M) THEN << >>
    ELSE IF ~SPos(M[k][k]) THEN << M[k][k] >>
    ELSE LET p == SInv(M[k][k])
             N == Mat(Rows(M), Cols(M), LAMBDA i, j :
                        IF i <= k THEN M[i][j] ELSE SSub(M[i][j], SMul(SMul(M[i][k], p), M[k][j])))
         IN  << M[k][k] >> \o PivotsFrom(N, k + 1)
(* All pivots are usable: over an ordered field, A is positive definite.     *)
AllPivots(A) == LET p == PivotsFrom(A, 1) IN Len(p) = Rows(A) /\ SPos(p[Len(p)])
=============================================================================
