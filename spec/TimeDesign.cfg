SPECIFICATION Spec
CONSTANTS
  Years = {2024}
  Zones = {"UTC", "NewYork", "London", "Sydney", "LordHowe", "Berlin", "Azores", "Beirut"}
INVARIANTS Calendar There Skipped Twice Once Sundays
CHECK_DEADLOCK FALSE
