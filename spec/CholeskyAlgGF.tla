---------------------------- MODULE CholeskyAlgGF ----------------------------
EXTENDS CholeskyAlg, GFScalars
GfRoot(a) == CHOOSE r \in 0..(GFP - 1) : GfMul(r, r) = a
=============================================================================
