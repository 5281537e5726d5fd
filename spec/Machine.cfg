SPECIFICATION Spec
INVARIANT Refines
INVARIANT RoundFixes
VIEW View
CHECK_DEADLOCK FALSE
