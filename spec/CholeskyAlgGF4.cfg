SPECIFICATION Spec
INVARIANTS Refusal Factor Inverted

CONSTANTS
  N = 4
  Field = {0,1,2}
  Dirt = {0,2}
  GFP = 3
  S0 = 0
  S1 = 1
  SAdd <- GfAdd
  SSub <- GfSub
  SMul <- GfMul
  SInv <- GfInv
  SEq <- GfEq
  SPos <- GfPos
  SLift <- GfId
  SHasRoot <- GfIsSquare
  SRoot <- GfRoot
CHECK_DEADLOCK FALSE
