SPECIFICATION Spec
CONSTANTS
  Rates = {"p1", "p2", "p3"}
  Workers = {"w1", "w2"}
  None = None
  Torn = Torn
  InPlace = FALSE
  EachSaves = FALSE
  MaxCrashes = 1
INVARIANTS NeverTorn NothingLost NothingInvented AlwaysWhole Complete
PROPERTY Grows
CHECK_DEADLOCK FALSE
