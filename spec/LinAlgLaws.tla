----------------------------- MODULE LinAlgLaws -----------------------------
(* The linear algebra the specification is written in is itself right: the   *)
(* textbook laws, for all matrices of some small shapes over a small field.  *)
EXTENDS LinAlg, Integers, Sequences, FiniteSets
CONSTANT Field
ASSUME Cardinality(Field) > 1

Mats(r, c) == [1..r -> [1..c -> Field]]
Syms(n) == {A \in Mats(n, n) : IsSymmetric(A)}
Zeros(r, c) == ZeroMat(r, c)
I(n) == Identity(n)

(* products *)
ASSUME \A A \in Mats(2, 1), B \in Mats(1, 2), C \in Mats(2, 2) : MatEq(Mul(Mul(A, B), C), Mul(A, Mul(B, C)))
ASSUME \A A \in Mats(1, 2), B \in Mats(2, 1) : MatEq(Mul(A, B), << << SAdd(SMul(A[1][1], B[1][1]), SMul(A[1][2], B[2][1])) >> >>)
ASSUME \A A, B \in Mats(2, 2) :
         /\ MatEq(MulT(A, B), Mul(A, Transpose(B)))
         /\ MatEq(Transpose(Mul(A, B)), Mul(Transpose(B), Transpose(A)))
         /\ MatEq(Transpose(Transpose(A)), A)
         /\ MatEq(Add(A, B), Add(B, A))
         /\ MatEq(Sub(Add(A, B), B), A)
         /\ MatEq(Add(A, Zeros(2, 2)), A)
         /\ \A s \in Field : MatEq(Scale(s, Mul(A, B)), Mul(Scale(s, A), B))
ASSUME \A A \in Mats(2, 2) : MatEq(Mul(A, I(2)), A) /\ MatEq(Mul(I(2), A), A)
ASSUME \A A \in Mats(1, 2), B, C \in Mats(2, 2) : MatEq(Mul(A, Add(B, C)), Add(Mul(A, B), Mul(A, C)))
(* a congruence keeps a matrix symmetric *)
ASSUME \A A \in Mats(2, 2), P \in Syms(2) : IsSymmetric(Quad(A, P))
ASSUME \A A \in Mats(3, 2), P \in Syms(2) : IsSymmetric(Quad(A, P)) /\ Rows(Quad(A, P)) = 3

(* determinants, to say which matrices have an inverse *)
Det2(A) == SSub(SMul(A[1][1], A[2][2]), SMul(A[1][2], A[2][1]))
Minor(A, i, j) == Mat(2, 2, LAMBDA a, b : A[IF a < i THEN a ELSE a + 1][IF b < j THEN b ELSE b + 1])
Det3(A) == SAdd(SSub(SMul(A[1][1], Det2(Minor(A, 1, 1))), SMul(A[1][2], Det2(Minor(A, 1, 2)))), SMul(A[1][3], Det2(Minor(A, 1, 3))))
(* elimination succeeds exactly if all leading principal minors are not zero *)
ASSUME \A A \in Mats(2, 2) : AllPivots(A) <=> (~SEq(A[1][1], S0) /\ ~SEq(Det2(A), S0))
ASSUME \A A \in Syms(3) : AllPivots(A) <=> (~SEq(A[1][1], S0) /\ ~SEq(Det2(Minor(A, 3, 3)), S0) /\ ~SEq(Det3(A), S0))
(* ... and then gives the inverse *)
ASSUME \A A \in Mats(2, 2) : AllPivots(A) => MatEq(Mul(A, Inverse(A)), I(2)) /\ MatEq(Mul(Inverse(A), A), I(2))
ASSUME \A A \in Syms(3) : AllPivots(A) => MatEq(Mul(A, Inverse(A)), I(3)) /\ IsSymmetric(Inverse(A))
ASSUME \A A \in Syms(3) : IsSymmetric(Symmetrize(A)) /\ MatEq(Symmetrize(A), A)
(* rows one after the other *)
ASSUME \A a, b, c, d, e, f \in Field : MatEq(FromFlat(<<a, b, c, d, e, f>>, 2, 3), << <<a, b, c>>, <<d, e, f>> >>)

VARIABLE done
Spec == done = TRUE /\ [][UNCHANGED done]_done
=============================================================================
