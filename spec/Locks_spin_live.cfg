SPECIFICATION Spec
CONSTANTS
  Variant = "spin"
  Threads = {1, 2}
  MaxReaders = 2
  Programs <- MCLivePrograms
PROPERTY Terminates
CHECK_DEADLOCK FALSE
