SPECIFICATION TraceSpec
CONSTANTS DB={} CN={} TN={} Handle={} Schema={} BadSchema={"D"} VerNo={} MaxVer=0 FN={} Det={} Fam={} Bogus=FALSE
INVARIANTS Referential UniqueNames HasVersion
PROPERTIES FailureIsInert DropIsLocal HistoryMonotone
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
