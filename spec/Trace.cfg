SPECIFICATION TSpec
CONSTANTS
  Worlds <- TWorlds
  Programs <- TPrograms
CHECK_DEADLOCK FALSE
