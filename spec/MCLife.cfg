SPECIFICATION Spec
CONSTANTS MaxGrow = 2  Opts = {0, 1}
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS ServableMeansPrepared PreparedIsServable
PROPERTIES Independent
