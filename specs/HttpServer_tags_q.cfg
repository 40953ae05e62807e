CONSTANTS
  Policies <- OpenPolicy
  Creds = {"none"}
  Kinds = {"post write", "post write read", "upload"}
  Queries = {"t", "join", "in", "scalar", "exists", "union", "count", "cte", "const", "schema", "both"}
  Dbs = {"default"}
  MaxRows = 2
SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTIES NoWrite NoRead Hits
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
