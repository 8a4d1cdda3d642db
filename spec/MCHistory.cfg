CONSTANTS
  CaseAt <- Self
  MetaAt <- Self
INIT HInit
NEXT HNext
INVARIANTS SameAgain FromGiven InRange ProgressBound
CHECK_DEADLOCK TRUE
