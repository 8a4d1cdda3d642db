CONSTANTS
  CaseAt <- Self
  MetaAt <- Self
INIT SInit
NEXT SNext
INVARIANTS InRange ProgressBound Alone HintsOnlyLabel PartsMakeTheWhole Husked KnownAs Description Stepped Independent
CHECK_DEADLOCK TRUE
