SPECIFICATION Spec
CONSTANTS MaxDepth=3
 Ops={"+","-","*","/","%","&","#","<<","=","<","distinct","notdistinct","and","or","istrue","isnotfalse","isnull","in","notin","not","neg","~","||"}
 Sides={"b","2","q"}
 Odd={"udf","join","placeholder"}
INVARIANTS Laws EmitInv
CHECK_DEADLOCK FALSE
