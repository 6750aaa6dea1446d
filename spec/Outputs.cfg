CONSTANT Show = TRUE
SPECIFICATION Spec
INVARIANTS BystandersKept NoForceKeeps FailedKeeps DoneReplaces NotSilent Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
