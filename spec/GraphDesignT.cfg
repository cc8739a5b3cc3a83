SPECIFICATION Spec
CONSTANTS NChains = 3 NSources = 2 MaxBody = 1 MaxSplit = 2 MaxNeed = 3
          Checks = {"counts", "twice", "missing"}
CHECK_DEADLOCK TRUE
