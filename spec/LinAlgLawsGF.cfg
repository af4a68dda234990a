SPECIFICATION Spec
CONSTANTS
  Field = {0, 1, 2}
  S0 = 0
  S1 = 1
  SAdd <- GfAdd
  SSub <- GfSub
  SMul <- GfMul
  SInv <- GfInv
  SEq <- GfEq
  SPos <- GfPos
  SLift <- GfId
  GFP = 3
CHECK_DEADLOCK FALSE
