SPECIFICATION Spec
CONSTANTS
  Size = 10
  Before <- BeforeBuf
INVARIANTS Exactly Sorted Kept
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
