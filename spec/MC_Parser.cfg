SPECIFICATION Spec
CONSTANTS
  Alpha = {97, 32, 92, 124, 33, 39, 94, 36}
  MaxLen = 4
INVARIANTS Agree NoEmpties OneWord LettersKept Spaces EscapedSpaces Negations Literal
CHECK_DEADLOCK FALSE
