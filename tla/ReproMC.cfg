SPECIFICATION Spec
CONSTANTS Slots = {1, 2}
          Seeds = {1, 6}
          Rooms = {2, 3}
          Runs = 3
INVARIANTS Function Prefix Bounded
CHECK_DEADLOCK FALSE
