SPECIFICATION Spec
CONSTANTS
  Variant = "add"
  Threads = {1, 2}
  MaxReaders = 2
  Programs <- MCLivePrograms
PROPERTY Terminates
CHECK_DEADLOCK FALSE
