SPECIFICATION Spec
CONSTANTS UseOffset = TRUE
 IncludeSE = TRUE
 MaxLeaves = 3
 LeafNames = {"WN","C","LIN","SE","PER"}
INVARIANTS NFNormal NFIdempotent NFDen NFFix RootStd NFSmaller
CHECK_DEADLOCK FALSE
