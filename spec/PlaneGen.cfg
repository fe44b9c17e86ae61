SPECIFICATION Spec
INVARIANT EulerHolds
INVARIANT Emit
