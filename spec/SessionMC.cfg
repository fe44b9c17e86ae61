SPECIFICATION Spec
CONSTANTS NF = 2
 NV = 2
 NL = 2
 NO = 1
 NB = 1
 MaxOps = 5
INVARIANTS NoDangling RoofsApart
PROPERTIES AppendOnly OneListPerStep
VIEW View
