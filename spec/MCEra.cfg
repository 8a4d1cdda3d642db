CONSTANTS
  CaseAt <- Self
  MetaAt <- Self
INIT Init
NEXT MNext
INVARIANTS InRange RoundTrip ProgressBound OneMeaning Back SameInItems Inside
CHECK_DEADLOCK TRUE
