SPECIFICATION Spec
CONSTANTS Days <- DaysQ Secs={0,1,3661,86399} Fracs={0,500000000,1000000,123000000,123456000,1000,1,123456789,999999999}
INVARIANTS EmitInv CalendarLaw
CHECK_DEADLOCK FALSE
