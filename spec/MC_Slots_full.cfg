SPECIFICATION Spec
CONSTANTS
  Kinds = {"pulse", "position", "node"}
  Depths = {9}
  Rounds = 2
  Marks = {2}
  Wrong = ""
INVARIANTS NeverFull
CHECK_DEADLOCK FALSE
