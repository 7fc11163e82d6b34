SPECIFICATION Spec
CONSTANTS
  N = 4
  Top = 9
INVARIANTS Minimal Sane Progress
CHECK_DEADLOCK FALSE
