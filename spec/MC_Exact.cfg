SPECIFICATION Spec
CONSTANTS
  QAlpha = {97, 98}
  CAlpha = {97, 98, 95}
  MaxQ = 3
  MaxC = 5
  Cases = {"smart"}
  Norms = {FALSE}
  Schemes = {"default"}
INVARIANTS AsPrescribed Found
PROPERTIES Advances Terminates
CHECK_DEADLOCK FALSE
