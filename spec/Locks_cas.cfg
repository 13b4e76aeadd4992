INIT Init
NEXT Next
CONSTANTS
  Variant = "cas"
  Threads = {1, 2, 3}
  MaxReaders = 2
  Programs <- MCPrograms
INVARIANT Exclusion
INVARIANT Visible
INVARIANT IdleFree
INVARIANT NeedWanted
INVARIANT ReadersCounted
CHECK_DEADLOCK FALSE
