SPECIFICATION Spec
CONSTANTS
  QAlpha = {97, 32}
  CAlpha = {97, 65, 32}
  MaxQ = 3
  MaxC = 6
  Cases = {"smart"}
  Norms = {FALSE}
  Schemes = {"default"}
INVARIANTS PrefixHolds SuffixHolds EqualHolds Together Itself Contained
CHECK_DEADLOCK FALSE
