SPECIFICATION Spec
CONSTANTS MaxNodes = 4
 Edited = TRUE
 Finite = TRUE
CHECK_DEADLOCK FALSE
