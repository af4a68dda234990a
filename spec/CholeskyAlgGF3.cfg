SPECIFICATION Spec
INVARIANTS Refusal Factor Inverted

CONSTANTS
  N = 3
  Field = {0,1,2,3,4}
  Dirt = {0,3}
  GFP = 5
  S0 = 0
  S1 = 1
  SAdd <- GfAdd
  SSub <- GfSub
  SMul <- GfMul
  SInv <- GfInv
  SEq <- GfEq
  SPos <- GfPos
  SLift <- GfId
  SHasRoot <- GfIsSquare
  SRoot <- GfRoot
CHECK_DEADLOCK FALSE
