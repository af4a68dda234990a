SPECIFICATION Spec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Approx = TRUE
  S0 = 0
  S1 = 1
  SAdd <- RatAdd
  SSub <- RatSub
  SMul <- RatMul
  SInv <- RatInv
  SEq <- RatEq
  SPos <- RatPos
  SLift <- Rat
  SLeq <- RatLeq
  SAbs <- RatAbs
  IsScalar <- IsNum
  SStr <- RatStr
  IsSquare <- RatNum
