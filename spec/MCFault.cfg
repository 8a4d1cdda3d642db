CONSTANTS
  CaseAt <- Self
  MetaAt <- Self
INIT FInit
NEXT FNext
INVARIANTS InRange ProgressBound Unharmed Reported FramingOnly SaidRight OnlyListed
CHECK_DEADLOCK TRUE
