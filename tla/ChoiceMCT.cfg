SPECIFICATION Spec
CONSTANTS V = {"a", "b", "c"}
          MaxW = 5
          MaxLen = 4
INVARIANTS Legal Proportional Complete Sharp
CHECK_DEADLOCK FALSE
