SPECIFICATION Spec
INVARIANTS Refusal Factor Inverted
PROPERTY Ends
CONSTANTS
  N = 2
  Field = {0,1,2,3,4,5,6,7,8,9,10}
  Dirt = {0,1,7}
  GFP = 11
  S0 = 0
  S1 = 1
  SAdd <- GfAdd
  SSub <- GfSub
  SMul <- GfMul
  SInv <- GfInv
  SEq <- GfEq
  SPos <- GfPos
  SLift <- GfId
  SHasRoot <- GfIsSquare
  SRoot <- GfRoot
CHECK_DEADLOCK FALSE
