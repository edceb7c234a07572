SPECIFICATION Spec
CONSTANT Room = TRUE
CONSTANT Scripts <- Three
CONSTANT Rule <- AsIs
INVARIANTS NoDeadlock Agreement Callbacks
CHECK_DEADLOCK FALSE
