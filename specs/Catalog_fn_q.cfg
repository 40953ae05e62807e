SPECIFICATION Spec
CONSTANTS
 DB={"d1","d2"} CN={"c1"} TN={"t1"} Handle <- H1 Schema={"A"} BadSchema={} VerNo={1} MaxVer=1 FN={"f","g"} Det={"x","y"} Fam={"db","del","fn"} Bogus=TRUE
INVARIANTS Referential UniqueNames HasVersion
PROPERTIES FailureIsInert DropIsLocal HistoryMonotone
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
