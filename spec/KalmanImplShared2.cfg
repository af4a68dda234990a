SPECIFICATION Spec
PROPERTIES Refines Returns
INVARIANT OthersKept
CHECK_DEADLOCK FALSE
CONSTANTS
  Fault = "none"
  Sharings <- MC_Shared
  Kinds = 2
  Calls = 2
  Ordered = FALSE
  GFP = 5
  Junk <- MC_Junk
  Filters <- MC_Filters
  Starts <- MC_Starts
  Trans <- MC_Trans
  Noises <- MC_Noises
  Lambdas <- MC_Lambdas
  Controls <- MC_Controls
  Observations <- MC_Observations
  Gains <- MC_Gains
  Functions <- MC_Functions
  S0 = 0
  S1 = 1
  SAdd <- GfAdd
  SSub <- GfSub
  SMul <- GfMul
  SInv <- GfInv
  SEq <- GfEq
  SPos <- GfPos
  SLift <- GfId
