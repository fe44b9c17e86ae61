SPECIFICATION Spec
INVARIANTS IsErosion MovedWalls Pieces HeightsSurvive
PROPERTY Vanishes
