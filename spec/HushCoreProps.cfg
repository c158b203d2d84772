CONSTANTS
  MaxFuel = 3000
  Burst = 0
INIT Init
NEXT Next
INVARIANT WellFormed
PROPERTIES ScopeProp HeapProp OutputProp PanicProp FlowProp StackProp
CHECK_DEADLOCK FALSE
