SPECIFICATION Spec
INVARIANT Independent
CHECK_DEADLOCK FALSE
