SPECIFICATION Spec
CONSTANTS
  Kinds = {"pulse", "ray", "position", "node"}
  Depths = {2, 9}
  Rounds = 2
  Marks = {2}
  Wrong = "plusone"
INVARIANTS Consecutive NextIsVacant WalkIsLatest
PROPERTIES KeepsRecent
CHECK_DEADLOCK FALSE
