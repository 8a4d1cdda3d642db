CONSTANTS
  CaseAt <- Self
  MetaAt <- Self
INIT Init
NEXT MNext
INVARIANTS InRange ProgressBound Decided ErrorsAreSo Equivalent
CHECK_DEADLOCK TRUE
