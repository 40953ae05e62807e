SPECIFICATION Spec
CONSTANTS
 DB={"d1","d2"} CN={"c1"} TN={"t1"} Handle <- H2 Schema={"A"} BadSchema={} VerNo={1} MaxVer=2 FN={"f"} Det={"x"} Fam={"db","coll","tab","ver","del","fn"} Bogus=FALSE
INVARIANTS Referential UniqueNames HasVersion
PROPERTIES FailureIsInert DropIsLocal HistoryMonotone
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
