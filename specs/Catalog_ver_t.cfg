SPECIFICATION Spec
CONSTANTS
 DB={"d1"} CN={"c1","c2"} TN={"t1","t2"} Handle <- H2 Schema={"A","E"} BadSchema={"D"} VerNo={1,2} MaxVer=3 FN={"f"} Det={"x"} Fam={"db","coll","tab","ren","ver","del"} Bogus=TRUE
INVARIANTS Referential UniqueNames HasVersion
PROPERTIES FailureIsInert DropIsLocal HistoryMonotone
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
