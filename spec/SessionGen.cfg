SPECIFICATION Spec
CONSTANTS NF = 4
 NV = 2
 NL = 2
 NO = 3
 NB = 4
 MaxOps = 12
INVARIANT Done
