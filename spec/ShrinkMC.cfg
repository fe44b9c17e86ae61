SPECIFICATION Spec
CONSTANTS
 N = 5
 H <- HolesDef
 MaxReflex = 2
INVARIANTS RingsInv LinkedInv EulerInv CyclesInv
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
