SPECIFICATION Spec
CONSTANT Room = FALSE
CONSTANT Scripts <- Three
CONSTANT Rule <- AsIs
INVARIANTS NoDeadlock Agreement Callbacks
CHECK_DEADLOCK FALSE
