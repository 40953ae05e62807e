SPECIFICATION Spec
CONSTANTS Pools={"greedy","fair","unbounded"} Limit=3 Slots=3 Max=4 Amounts={0,1,2,3} Consumers <- ConsumersQ
PROPERTIES LimitHolds Balance
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
