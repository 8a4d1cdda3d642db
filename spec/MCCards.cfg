CONSTANTS
  CaseAt <- Self
  MetaAt <- Self
INIT CInit
NEXT CNext
INVARIANTS InRange ProgressBound SameCards NothingLost Indents Shapes0
CHECK_DEADLOCK TRUE
