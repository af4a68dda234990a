--------------------------------- MODULE GF ---------------------------------
(* The prime field with GFP elements, represented by 0 .. GFP-1.             *)
(* GFP has to stay below 46341 so that products fit TLC's 32-bit integers.   *)
(* A value outside 0..GFP-1 in a trace is an element of the quadratic        *)
(* extension (see harness/src/gf.rs), which no result may be.                *)
LOCAL INSTANCE Integers
CONSTANT GFP

GfAdd(a, b) == (a + b) % GFP
GfSub(a, b) == (a - b + GFP) % GFP
GfMul(a, b) == (a * b) % GFP
RECURSIVE GfPow(_, _)
GfPow(a, n) == IF n = 0 THEN 1
                   ELSE LET h == GfPow(a, n \div 2) IN
                        LET q == (h * h) % GFP IN
                        IF n % 2 = 0 THEN q ELSE (q * a) % GFP
GfInv(a) == GfPow(a, GFP - 2)           \* Fermat; GfInv(0) = 0
GfEq(a, b) == a = b
=============================================================================
