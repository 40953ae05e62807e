SPECIFICATION Spec
CONSTANTS MaxDepth=3
 Ops={"-","*","%","&","#","=","<","distinct","and","or","istrue","isnull","in","not","neg"}
 Sides={"b","q"}
 Odd={"join"}
INVARIANTS Laws EmitInv
CHECK_DEADLOCK FALSE
