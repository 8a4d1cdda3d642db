CONSTANTS
  CaseAt <- Self
  MetaAt <- Self
INIT Init
NEXT MNext
INVARIANTS InRange RoundTrip ProgressBound SaysWhatItMeans PrefixFree Elsewhere LabelsChangeNothing DescriptionsChangeNothing PlaceOfError LeftOver RegistryErrors
CHECK_DEADLOCK TRUE
