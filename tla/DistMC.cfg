SPECIFICATION Spec
CONSTANTS T = {"a", "b", "c"}
          W = {1, 2}
INVARIANTS Agree Once OwnFirst OnlyMirrored BothWays Symmetric Followed
CHECK_DEADLOCK FALSE
