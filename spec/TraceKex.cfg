SPECIFICATION TSpec
CONSTANTS UseOffset = TRUE
 IncludeSE = TRUE
INVARIANT Verdict
CHECK_DEADLOCK FALSE
