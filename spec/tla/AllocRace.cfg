SPECIFICATION Spec
INVARIANT Exact
CONSTANTS
  Threads = {t1, t2}
  Sizes = {1, 2}
  MaxCalls = 2
CHECK_DEADLOCK FALSE
