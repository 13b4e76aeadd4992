SPECIFICATION Spec
INVARIANT Exclusion
CHECK_DEADLOCK FALSE
