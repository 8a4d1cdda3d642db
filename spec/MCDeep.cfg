CONSTANTS
  CaseAt <- Self
  MetaAt <- Self
INIT DInit
NEXT DNext
INVARIANTS InRange RoundTrip ProgressBound SaysWhatItMeans PrefixFree Elsewhere LabelsChangeNothing DescriptionsChangeNothing PlaceOfError LeftOver RegistryErrors
CHECK_DEADLOCK TRUE
