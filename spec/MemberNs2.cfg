SPECIFICATION Spec
CONSTANT Room = FALSE
CONSTANT Scripts <- Two
CONSTANT Rule <- AsIs
INVARIANTS NoDeadlock Agreement Callbacks
CHECK_DEADLOCK FALSE
