SPECIFICATION Spec
CONSTANTS
  Years = {2008, 2012, 2015, 2018, 2019, 2021, 2023, 2027, 2032, 2036}
  Zones = {"UTC", "NewYork", "London", "Sydney", "LordHowe", "Berlin", "Azores", "Beirut"}
INVARIANTS Calendar There Skipped Twice Once Sundays
CHECK_DEADLOCK FALSE
