SPECIFICATION Spec
CONSTANTS MaxNodes = 14
 Edited = FALSE
 Finite = FALSE
CHECK_DEADLOCK FALSE
