SPECIFICATION Spec
CONSTANTS
  QAlpha = {97, 98}
  CAlpha = {97, 98, 95}
  MaxQ = 3
  MaxC = 5
  Cases = {"smart"}
  Norms = {FALSE}
  Schemes = {"default"}
INVARIANTS KeysAgree Subsequence Spelled V1Window V2Recurrence V2Single Bounded
PROPERTY Monotonic
CHECK_DEADLOCK FALSE
