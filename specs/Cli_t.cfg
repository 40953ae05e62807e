SPECIFICATION Spec
CONSTANTS MaxLines=3 Lines={"d","q","help","quit","x","bs","dt","dtt","qx","hx","sp","ind","dsp","dsemi","D","empty","blank","semi","s","s2","ssp","open","close","mid","word","wquit","qs","bad","badplan","badrun","badphys","none"}
INVARIANTS Planned EmitInv
PROPERTY NothingFromUnfinished
CHECK_DEADLOCK FALSE
