SPECIFICATION Spec
CONSTANTS MaxDepth=2
 Ops={"+","-","*","/","%","&","|","#","<<",">>","=","!=","<","<=",">",">=","distinct","notdistinct","and","or","istrue","isfalse","isnottrue","isnotfalse","isnull","isnotnull","in","notin","not","neg","t!=","~","!~","~*","!~*","~~","!~~","~~*","!~~*","||"}
 Sides={"b","2","q"}
 Odd={"udf","placeholder","variable","outer","similar","unknownlit","ilike"}
INVARIANTS Laws EmitInv
CHECK_DEADLOCK FALSE
