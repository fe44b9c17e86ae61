SPECIFICATION Spec
CONSTANTS
 N = 4
 H <- HolesDef
 MaxReflex = 2
INVARIANTS RingsInv LinkedInv EulerInv CyclesInv
PROPERTY Shrinks
CHECK_DEADLOCK FALSE
