SPECIFICATION Spec
CONSTANTS NChains = 2 NSources = 2 MaxBody = 2 MaxSplit = 1 MaxNeed = 2
          Checks = {"counts", "twice", "missing"}
CHECK_DEADLOCK TRUE
