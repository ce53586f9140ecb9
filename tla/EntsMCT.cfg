SPECIFICATION Spec
CONSTANTS Length = 3
INVARIANTS WellFormed Faithful Readable Again
PROPERTIES Apart Snaps
CHECK_DEADLOCK FALSE
