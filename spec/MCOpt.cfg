SPECIFICATION Spec
CONSTANTS K = 3  C = 3
 Rungs <- SomeRungs
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK ValidIffNotFailed NaNNeverValid LMNeverRaises DampingBounded DivergedIsTrue
PROPERTIES LMStepsLower Terminates
