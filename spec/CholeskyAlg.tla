----------------------------- MODULE CholeskyAlg -----------------------------
(* The decomposition of a symmetric matrix into L L^T in its own storage,    *)
(* and the inversion from that factor into another matrix, one element at a  *)
(* time.  Model-checked for every symmetric matrix over a small field whose  *)
(* pivots have square roots, and for several contents of the destination:    *)
(*  - it reports failure exactly if some pivot is not usable;                *)
(*  - otherwise the storage ends up holding a lower triangular L, zero above *)
(*    the diagonal, with L L^T = A; and the destination the inverse of A.    *)
(* Conformance of the code is checked against the properties, not the steps: *)
(* this shows that the steps achieve what MatrixTrace demands.               *)
EXTENDS LinAlg, Integers, Sequences, FiniteSets
CONSTANTS Field, N, Dirt, SHasRoot(_), SRoot(_)

VARIABLES A,        \* the matrix given
          t,        \* the storage being decomposed
          inv,      \* the destination of the inverse
          pc, i, j, div
vars == <<A, t, inv, pc, i, j, div>>

Mats == [1..N -> [1..N -> Field]]
Pivs(M) == PivotsFrom(M, 1)
Rootable(M) == LET p == Pivs(M) IN \A k \in 1..Len(p) : SPos(p[k]) => SHasRoot(p[k])
D(s) == [r \in 1..N |-> [c \in 1..N |-> s]]

Init == /\ A \in {M \in Mats : IsSymmetric(M) /\ Rootable(M)}
        /\ t = A
        /\ inv \in {D(s) : s \in Dirt}
        /\ pc = "decompose" /\ i = 1 /\ j = 1 /\ div = S0

Put(M, r, c, v) == [M EXCEPT ![r][c] = v]
RECURSIVE SumOf(_, _, _)
SumOf(f(_), a, b) == IF a > b THEN S0 ELSE SAdd(f(a), SumOf(f, a + 1, b))

(* element (j, i) of the factor, column by column *)
Decompose ==
    /\ pc = "decompose"
    /\ LET sum == SSub(t[i][j], SumOf(LAMBDA k : SMul(t[i][k], t[j][k]), 1, i - 1))
           u == Put(t, j, i, SMul(sum, div))
       IN IF i # j
          THEN t' = u /\ div' = div /\ pc' = pc
          ELSE IF ~SPos(sum)
          THEN t' = u /\ div' = div /\ pc' = "refused"
          ELSE t' = Put(t, i, i, SRoot(sum)) /\ div' = SInv(SRoot(sum)) /\ pc' = IF i = N THEN "clear" ELSE pc
    /\ IF j < N THEN j' = j + 1 /\ i' = i
       ELSE IF i < N THEN i' = i + 1 /\ j' = i + 1
       ELSE i' = 1 /\ j' = 1
    /\ UNCHANGED <<A, inv>>
(* the upper triangle still holds what was given *)
Clear == /\ pc = "clear"
         /\ t' = [r \in 1..N |-> [c \in 1..N |-> IF c > r THEN S0 ELSE t[r][c]]]
         /\ pc' = "forward" /\ i' = 1 /\ j' = 1
         /\ UNCHANGED <<A, inv, div>>
(* the inverse of the triangle, kept in the upper triangle *)
Forward == /\ pc = "forward"
           /\ LET sum == SSub(IF i = j THEN S1 ELSE S0, SumOf(LAMBDA k : SMul(t[i][k], inv[j][k]), j, i - 1))
              IN inv' = Put(inv, j, i, SMul(sum, SInv(t[i][i])))
           /\ IF j < i THEN j' = j + 1 /\ UNCHANGED <<i, pc>>
              ELSE IF i < N THEN i' = i + 1 /\ j' = 1 /\ UNCHANGED pc
              ELSE pc' = "backward" /\ i' = N /\ j' = 1
           /\ UNCHANGED <<A, t, div>>
Backward == /\ pc = "backward"
            /\ LET sum == SSub(inv[j][i], SumOf(LAMBDA k : SMul(t[k][i], inv[j][k]), i + 1, N))
                   v == SMul(sum, SInv(t[i][i]))
               IN inv' = Put(Put(inv, i, j, v), j, i, v)
            /\ IF j < i THEN j' = j + 1 /\ UNCHANGED <<i, pc>>
               ELSE IF i > 1 THEN i' = i - 1 /\ j' = 1 /\ UNCHANGED pc
               ELSE pc' = "done" /\ UNCHANGED <<i, j>>
            /\ UNCHANGED <<A, t, div>>
Next == Decompose \/ Clear \/ Forward \/ Backward
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Lower(M) == \A r \in 1..N : \A c \in (r + 1)..N : SEq(M[r][c], S0)
Refusal == /\ pc = "refused" => ~AllPivots(A)
           /\ pc \in {"clear", "forward", "backward", "done"} => AllPivots(A)
Factor == pc \in {"forward", "backward", "done"} => Lower(t) /\ MatEq(MulT(t, t), A)
Inverted == pc = "done" => /\ MatEq(Mul(A, inv), Identity(N)) /\ IsSymmetric(inv)
                           /\ MatEq(inv, Inverse(A))
Ends == <>(pc \in {"refused", "done"})
=============================================================================
