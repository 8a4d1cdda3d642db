CONSTANTS
  CaseAt <- Self
  MetaAt <- Self
INIT Init
NEXT MNext
INVARIANTS InRange RoundTrip ProgressBound SaysWhatItMeans Elsewhere Required NotCall MarkedWhole NoCallHere
CHECK_DEADLOCK TRUE
