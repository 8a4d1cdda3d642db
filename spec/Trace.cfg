CONSTANTS
  CaseAt <- TraceCase
  MetaAt <- TraceMeta
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
