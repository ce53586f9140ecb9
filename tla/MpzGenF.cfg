SPECIFICATION Spec
CONSTANTS MaxNodes = 14
 Edited = FALSE
 Finite = TRUE
CHECK_DEADLOCK FALSE
