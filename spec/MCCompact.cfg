CONSTANTS
  CaseAt <- Self
  MetaAt <- Self
INIT Init
NEXT MNext
INVARIANTS InRange RoundTrip ProgressBound Exactly Placed InItems Wider
CHECK_DEADLOCK TRUE
