SPECIFICATION BufSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  GFP = 46337
  Approx = FALSE
  S0 = 0
  S1 = 1
  SAdd <- GfAdd
  SSub <- GfSub
  SMul <- GfMul
  SInv <- GfInv
  SEq <- GfEq
  SPos <- GfPos
  SLift <- GfId
  SLeq <- GfLeq
  SAbs <- GfId
  IsScalar <- GfIs
  SStr <- GfId
  IsSquare <- GfIsSquare
