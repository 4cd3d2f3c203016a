SPECIFICATION Spec
CONSTANTS
  Wide = FALSE
INVARIANTS Antisymmetric Reflexive Transitive KeyOrder KeyRows Conversion Texts2
CHECK_DEADLOCK FALSE
