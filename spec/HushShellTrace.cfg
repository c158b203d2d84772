CONSTANTS
  MaxFuel = 3000
  Burst = 60
INIT Init
NEXT Next
INVARIANT WellFormed
INVARIANT OneReader
INVARIANT Waited
INVARIANT Running
CHECK_DEADLOCK FALSE
