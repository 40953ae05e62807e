CONSTANTS
  Policies <- AllPolicies
  Creds = {"none", "malformed", "read", "write", "wrong", "empty"}
  Kinds = {"get read", "get write", "get hash", "get bad", "get explain", "get twice", "post read", "post explain", "post show", "post read read", "post analyze", "post write", "upload", "post write write", "post write read", "post read write", "post empty", "post bad", "health", "nowhere"}
  Queries <- NoStrings
  Dbs = {"default", "other", "missing"}
  MaxRows = 4
SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTIES NoWrite NoRead OffIsOff
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
