CONSTANTS
  CaseAt <- Self
  MetaAt <- Self
INIT Init
NEXT MNext
INVARIANTS DigitsBack Exact Clean PrintedSo
CHECK_DEADLOCK TRUE
