INIT Init
NEXT Next
INVARIANTS EdgeEnds Walks Closed Opposites Shared Full InRange Local
CONSTANTS Grid = 5
CHECK_DEADLOCK FALSE
