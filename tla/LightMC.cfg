SPECIFICATION Spec
CONSTANTS Grid = 8
INVARIANTS Valid Bright Saturated Allowed Centred
CHECK_DEADLOCK FALSE
