---------------------------- MODULE LinAlgLawsGF ----------------------------
EXTENDS LinAlgLaws, GFScalars
=============================================================================
