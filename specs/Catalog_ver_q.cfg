SPECIFICATION Spec
CONSTANTS
 DB={"d1"} CN={"c1"} TN={"t1","t2"} Handle <- H2 Schema={"B"} BadSchema={} VerNo={1,2} MaxVer=3 FN={} Det={} Fam={"db","coll","tab","ver","del"} Bogus=TRUE
INVARIANTS Referential UniqueNames HasVersion
PROPERTIES FailureIsInert DropIsLocal HistoryMonotone
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
