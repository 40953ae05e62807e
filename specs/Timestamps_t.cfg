SPECIFICATION Spec
CONSTANTS
 Days <- DaysT
 Secs = {0, 1, 9600, 43199, 43200, 59999, 86399}
 Offsets <- OffQ
 Formats = {"rfc3339", "rfc3339z", "rfc3339zl", "spacez", "space", "custom", "customc", "naive", "rfc2822", "gmt"}
 Fractions = {0, 500000000, 1}
 Bads = {"empty", "word", "number", "month13", "month0", "day", "dayz", "hour", "minute", "second", "offset", "weekday", "trailing", "trailingz", "leading", "date", "slashes"}
INVARIANTS Reads EmitInv
PROPERTY SameInstant
CHECK_DEADLOCK FALSE
