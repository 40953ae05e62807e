CONSTANTS
  Policies <- OpenPolicy
  Creds = {"none"}
  Kinds = {"get read", "post read", "post write", "upload", "post write read", "post write write"}
  Queries <- NoStrings
  Dbs = {"default", "other", "missing"}
  MaxRows = 4
SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTIES NoWrite NoRead
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
