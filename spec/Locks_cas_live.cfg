SPECIFICATION Spec
CONSTANTS
  Variant = "cas"
  Threads = {1, 2}
  MaxReaders = 2
  Programs <- MCLivePrograms
PROPERTY Terminates
CHECK_DEADLOCK FALSE
