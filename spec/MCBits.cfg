CONSTANTS
  CaseAt <- Self
  MetaAt <- Self
INIT Init
NEXT MNext
INVARIANTS InRange RoundTrip ProgressBound BitsCome Same32 Shifted
CHECK_DEADLOCK TRUE
