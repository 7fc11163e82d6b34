SPECIFICATION Spec
INVARIANT Exact
CONSTANTS
  Threads = {t1, t2, t3}
  Sizes = {1, 2, 3}
  MaxCalls = 1
CHECK_DEADLOCK FALSE
