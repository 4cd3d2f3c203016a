SPECIFICATION Spec
CONSTANTS
  Profile = "C29"
  Bound = 2
  Edits = 0
INVARIANT Ok
CHECK_DEADLOCK FALSE
