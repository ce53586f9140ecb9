SPECIFICATION Spec
CONSTANTS Grid = 1
INVARIANTS Valid Bright Saturated Allowed Centred
CHECK_DEADLOCK FALSE
