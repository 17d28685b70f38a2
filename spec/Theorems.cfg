SPECIFICATION Spec
CONSTANTS
  Worlds <- MWorlds
INVARIANT Holds
CHECK_DEADLOCK FALSE
