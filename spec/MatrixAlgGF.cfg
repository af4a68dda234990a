SPECIFICATION Spec
PROPERTY Ends
INVARIANTS Right Frame
CHECK_DEADLOCK FALSE
CONSTANTS
  GFP = 11
  Shapes <- MC_Shapes
  Surplus <- MC_Surplus
  Contents <- MC_Contents
  S0 = 0
  S1 = 1
  SAdd <- GfAdd
  SSub <- GfSub
  SMul <- GfMul
  SInv <- GfInv
  SEq <- GfEq
  SPos <- GfPos
  SLift <- GfId
