CONSTANTS
  CaseAt <- Self
  MetaAt <- Self
INIT Init
NEXT MNext
INVARIANTS InRange RoundTrip ProgressBound ExtensionsDecide ExtensionErrors InOrder Split CallMeant CallSaid Unmarked Equivalent
CHECK_DEADLOCK TRUE
