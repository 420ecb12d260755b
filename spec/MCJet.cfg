SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Xs <- cXs
 Ws <- cWs
 Steps = 2
 MaxDeg = 6
 MaxTerms = 8
INVARIANTS Values Gradients Hessians Laplacians Traces
