SPECIFICATION Spec
INVARIANT States
PROPERTY Actions
CHECK_DEADLOCK FALSE
