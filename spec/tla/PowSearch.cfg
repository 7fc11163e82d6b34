SPECIFICATION Spec
CONSTANTS
  N = 3
  Top = 6
INVARIANTS Minimal Sane Progress
CHECK_DEADLOCK FALSE
