SPECIFICATION Spec
INVARIANTS LawsHold Covariances
CHECK_DEADLOCK FALSE
CONSTANTS
  Calls = 1
  Ordered = FALSE
  GFP = 3
  Filters <- MC_Filters
  Starts <- MC_Starts
  Trans <- MC_Trans
  Noises <- MC_Noises
  Lambdas <- MC_Lambdas
  Controls <- MC_Controls
  Observations <- MC_Observations
  Gains <- MC_Gains
  Functions <- MC_Functions
  S0 = 0
  S1 = 1
  SAdd <- GfAdd
  SSub <- GfSub
  SMul <- GfMul
  SInv <- GfInv
  SEq <- GfEq
  SPos <- GfPos
  SLift <- GfId
