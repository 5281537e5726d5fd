SPECIFICATION Spec
CONSTANTS
  Rates = {"p1", "p2", "p3", "p4"}
  Workers = {"w1", "w2"}
  None = None
  Torn = Torn
  InPlace = FALSE
  EachSaves = FALSE
  MaxCrashes = 2
INVARIANTS NeverTorn NothingLost NothingInvented AlwaysWhole Complete
PROPERTY Grows
CHECK_DEADLOCK FALSE
