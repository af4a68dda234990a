SPECIFICATION Spec
INVARIANTS LawsHold Covariances
CHECK_DEADLOCK FALSE
CONSTANTS
  Calls = 3
  Ordered = TRUE
  Filters <- MC_Filters
  Starts <- MC_Starts
  Trans <- MC_Trans
  Noises <- MC_Noises
  Lambdas <- MC_Lambdas
  Controls <- MC_Controls
  Observations <- MC_Observations
  Gains <- MC_Gains
  Functions <- MC_Functions
  S0 = 0
  S1 = 1
  SAdd <- RatAdd
  SSub <- RatSub
  SMul <- RatMul
  SInv <- RatInv
  SEq <- RatEq
  SPos <- RatPos
  SLift <- Rat
