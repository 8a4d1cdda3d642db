CONSTANTS
  CaseAt <- Self
  MetaAt <- Self
INIT Init
NEXT MNext
INVARIANTS InRange RoundTrip ProgressBound SaysWhatItMeans Elsewhere FixedFormat OnlyKnown
CHECK_DEADLOCK TRUE
