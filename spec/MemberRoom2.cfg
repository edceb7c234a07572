SPECIFICATION Spec
CONSTANT Room = TRUE
CONSTANT Scripts <- Two
CONSTANT Rule <- AsIs
INVARIANTS NoDeadlock Agreement Callbacks
CHECK_DEADLOCK FALSE
