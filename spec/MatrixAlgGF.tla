---------------------------- MODULE MatrixAlgGF ----------------------------
EXTENDS MatrixAlg, GFScalars
MC_Shapes == {1, 2, 3} \X {1, 2, 3} \X {1, 2}
MC_Surplus == {0, 2}
(* a matrix of which every element is another, and those with a single element, which span all *)
MC_Contents(r, c) == { Mat(r, c, LAMBDA i, j : (3 * (i - 1) * c + j) % GFP) } \cup
                     { Mat(r, c, LAMBDA i, j : IF i = a /\ j = b THEN 2 ELSE 0) : a \in 1..r, b \in 1..c }
=============================================================================
