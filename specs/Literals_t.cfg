SPECIFICATION Spec
CONSTANTS Days <- DaysT Secs={0,59,3661,43200,86399} Fracs={0,500000000,1000000,123000000,123456000,1000,1,123456789,999999999}
INVARIANTS EmitInv CalendarLaw
CHECK_DEADLOCK FALSE
