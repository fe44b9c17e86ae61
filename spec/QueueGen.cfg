SPECIFICATION Spec
CONSTANTS
 Heights <- H9
 MaxPut = 25
 MaxOps = 24
INVARIANT Done
CHECK_DEADLOCK FALSE
