SPECIFICATION Spec
CONSTANTS Length = 2
INVARIANTS WellFormed Faithful Readable Again
PROPERTIES Apart Snaps
CHECK_DEADLOCK FALSE
