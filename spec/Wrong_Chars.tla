----------------------------- MODULE Wrong_Chars -----------------------------
(* Chars gone wrong, see Wrong. *)
EXTENDS Chars

(* What the standard library makes of a Kelvin sign, what a compatibility
   decomposition makes of a full-width letter. *)
WFold(c) == IF c = 8490 THEN 107 ELSE SlowFold(c)
WNorm(c) == IF c = 65313 THEN 65 ELSE IF c <= TabMax THEN NormTab[c] ELSE c

(* Each digit of a number is worth as much as its first. *)
WBonus(prev, cur, scheme) ==
  CASE cur = NonWord -> NonWordPts
    [] cur = White -> WhiteBonus(scheme)
    [] prev = White -> WhiteBonus(scheme)
    [] prev = Delim -> DelimBonus(scheme)
    [] prev = NonWord -> BoundaryPts
    [] cur = Upper /\ prev = Lower -> CamelPts
    [] cur = Number -> CamelPts
    [] OTHER -> 0
=============================================================================
