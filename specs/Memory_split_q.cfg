SPECIFICATION Spec
CONSTANTS Pools={"greedy","fair"} Limit=2 Slots=3 Max=3 Amounts={0,1,2} Consumers <- ConsumersP
PROPERTIES LimitHolds Balance
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
