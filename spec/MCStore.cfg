CONSTANTS
  CaseAt <- Self
  MetaAt <- Self
INIT Init
NEXT MNext
INVARIANTS InRange ProgressBound Decided KeyAlone ErrorsAreSo
CHECK_DEADLOCK TRUE
