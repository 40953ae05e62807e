SPECIFICATION Spec
CONSTANTS
 DB={"d1"} CN={"c1","c2"} TN={"t1","t2"} Handle <- H2 Schema={"A"} BadSchema={} VerNo={1} MaxVer=2 FN={"f"} Det={"x"} Fam={"db","coll","tab","ver","del","fn"} Bogus=TRUE
INVARIANTS Referential UniqueNames HasVersion
PROPERTIES FailureIsInert DropIsLocal HistoryMonotone
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
