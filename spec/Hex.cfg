SPECIFICATION Spec
CONSTANT Tests <- TestData
INVARIANT InBounds
CHECK_DEADLOCK FALSE
