------------------------------- MODULE Chars -------------------------------
(***************************************************************************
 Characters are Unicode scalar values (naturals), strings are sequences of
 them.  This module defines their classes, case folding, the normalization
 of latin variants, the equality between a query character and a candidate
 character under a metric's settings, and their encoded length in bytes.
 ***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, UnicodeData, NormTable

(* Character classes. *)
White   == 0
NonWord == 1
Delim   == 2
Lower   == 3
Upper   == 4
Letter  == 5
Number  == 6

(* Binary search: the greatest index k in lo..hi with s[k] <= x, where
   s[lo] <= x. *)
RECURSIVE Floor(_, _, _, _)
Floor(s, x, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF s[mid] <= x THEN Floor(s, x, mid, hi) ELSE Floor(s, x, lo, mid - 1)

(* Class of a character, scheme aside: 7 stands for ",:;|", the characters
   which are delimiters in all schemes but Path, in which they are ordinary
   non-word characters. *)
SlowClass(c) ==
  IF c < 128
  THEN CASE c \in 97..122 -> Lower
         [] c \in 65..90 -> Upper
         [] c \in 48..57 -> Number
         [] c \in {9, 10, 12, 13, 32} -> White
         [] c = 47 -> Delim
         [] c \in {44, 58, 59, 124} -> 7
         [] OTHER -> NonWord
  ELSE ClassVals[Floor(ClassStarts, c, 1, Len(ClassStarts))]

(* Lowercase form, between non-ASCII characters or between ASCII ones. *)
SlowFold(c) ==
  IF c < 128 THEN (IF c \in 65..90 THEN c + 32 ELSE c)
  ELSE IF c < LowerFrom[1] THEN c
  ELSE LET k == Floor(LowerFrom, c, 1, Len(LowerFrom))
       IN IF LowerFrom[k] = c THEN LowerTo[k] ELSE c

TabMax == 8703

ClassTab == [c \in 0..TabMax |-> SlowClass(c)]

FoldTab  == [c \in 0..TabMax |-> SlowFold(c)]

NormTab ==
  FoldLeft(LAMBDA tab, g : FoldLeft(LAMBDA t, c : [t EXCEPT ![c] = g[1]], tab, g[2]),
           TLCEval([c \in 0..TabMax |-> c]), NormGroups)

Class0(c) == IF c <= TabMax THEN ClassTab[c] ELSE SlowClass(c)
Fold(c)   == IF c <= TabMax THEN FoldTab[c] ELSE SlowFold(c)
Norm(c)   == IF c <= TabMax THEN NormTab[c] ELSE c

(* Whether a query character lies in one of the normalized ranges: it is then
   compared with the candidate's characters as they are. *)
InNormRange(c) ==
  \/ c >= NormRanges[1][1] /\ c <= NormRanges[1][2]
  \/ c >= NormRanges[2][1] /\ c <= NormRanges[2][2]
  \/ c >= NormRanges[3][1] /\ c <= NormRanges[3][2]

IsUpper(c) == Class0(c) = Upper

Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

(***************************************************************************
 Equality of a query character q and a candidate character c:
   sens  the comparison is case sensitive
   norm  candidate normalization is on
 ***************************************************************************)
CharEq(q, c, sens, norm) ==
  LET c1 == IF norm /\ ~InNormRange(q) THEN Norm(c) ELSE c
  IN IF sens THEN q = c1 ELSE Fold(q) = Fold(c1)

(***************************************************************************
 Scoring schemes.  `white` and `delim` are the bonuses of a character
 following a white space or a delimiter, `init` is the class the candidate is
 considered to be preceded by.
 ***************************************************************************)
SchemeNames == {"default", "path", "history"}

WhiteBonus(scheme) == IF scheme = "default" THEN 10 ELSE 8
DelimBonus(scheme) == IF scheme = "history" THEN 8 ELSE 9
InitClass(scheme)  == IF scheme = "path" THEN Delim ELSE White

ClassOf(c, scheme) ==
  LET b == Class0(c)
  IN IF b # 7 THEN b ELSE IF scheme = "path" THEN NonWord ELSE Delim

MatchPts      == 16
BoundaryPts   == 8
NonWordPts    == 8
CamelPts      == 7
ConsecutivePts == 4
GapStartPts   == 3
GapExtPts     == 1

(* The bonus of a character of class `cur` preceded by one of class `prev`. *)
Bonus(prev, cur, scheme) ==
  CASE cur = NonWord -> NonWordPts
    [] cur = White -> WhiteBonus(scheme)
    [] prev = White -> WhiteBonus(scheme)
    [] prev = Delim -> DelimBonus(scheme)
    [] prev = NonWord -> BoundaryPts
    [] cur = Upper /\ prev = Lower -> CamelPts
    [] cur = Number /\ prev # Number -> CamelPts
    [] OTHER -> 0
=============================================================================
