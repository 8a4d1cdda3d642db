CONSTANTS
  CaseAt <- Self
  MetaAt <- Self
INIT Init
NEXT MNext
INVARIANTS InRange ProgressBound VersionFound EitherMetadata ExtensionsAsListed ParamsFound Declared15
CHECK_DEADLOCK TRUE
