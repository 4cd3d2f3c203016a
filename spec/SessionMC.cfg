SPECIFICATION Spec
CONSTANTS
  Profile = "C24"
  Bound = 1
  Walk = 0
VIEW View
INVARIANT Ok
CONSTRAINT Constraint
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
