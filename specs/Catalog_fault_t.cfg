SPECIFICATION Spec
CONSTANTS
 DB={"d1","d2"} CN={"c1","c2"} TN={"t1","t2"} Handle <- H2 Schema={"B"} BadSchema={"D"} VerNo={1} MaxVer=2 FN={"f"} Det={"x","y"} Fam={"db","coll","tab","ren","ver","del","fn"} Bogus=FALSE
INVARIANTS Referential UniqueNames HasVersion
PROPERTIES FailureIsInert DropIsLocal HistoryMonotone
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
