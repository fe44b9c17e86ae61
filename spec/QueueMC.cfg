SPECIFICATION Spec
CONSTANTS
 Heights <- H3
 MaxPut = 4
 MaxOps = 7
INVARIANTS Conserved NotLower
PROPERTY Apart
VIEW View
CHECK_DEADLOCK FALSE
