CONSTANTS
  MaxFuel = 3000
  Burst = 60
INIT Init
NEXT Next
INVARIANT WellFormed
CHECK_DEADLOCK FALSE
