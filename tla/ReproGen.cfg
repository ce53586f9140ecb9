SPECIFICATION Spec
CONSTANTS Envs = 3
CHECK_DEADLOCK FALSE
