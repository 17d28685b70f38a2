SPECIFICATION HSpec
CONSTANTS
  Worlds <- HWorlds
  Programs <- HPrograms
INVARIANTS NoHistory OneLoader Printed
CHECK_DEADLOCK FALSE
