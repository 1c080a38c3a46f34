INIT Init
NEXT Next
VIEW View
INVARIANT Done
CHECK_DEADLOCK FALSE
