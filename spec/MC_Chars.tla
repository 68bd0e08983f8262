------------------------------ MODULE MC_Chars ------------------------------
(***************************************************************************
 Characters: classes, case folding, normalization and equality, for all the
 characters up to `To`, one after the other, against a few others each; and
 the bonuses, against a table of them.
 ***************************************************************************)
EXTENDS Chars, FiniteSets

CONSTANTS From, To, Others

VARIABLE ch

Init == ch = From
Next == ch < To /\ ch' = ch + 1
Spec == Init /\ [][Next]_ch

(* The letters, the characters near ch, and a few more. *)
Near == {x \in {ch, ch + 1, ch + 32, ch - 32, Fold(ch), Norm(ch), Fold(Norm(ch))} : x >= 0} \cup Others

Folding ==
  /\ Fold(Fold(ch)) = Fold(ch)
  /\ (Fold(ch) < 128) = (ch < 128)
  /\ Fold(ch) # ch => Class0(ch) # Lower
  /\ ch < 128 => Fold(ch) = (IF ch \in 65..90 THEN ch + 32 ELSE ch)

Normalizing ==
  /\ Norm(Norm(ch)) = Norm(ch)
  /\ ~InNormRange(ch) => Norm(ch) = ch
  /\ Norm(ch) # ch => /\ Norm(ch) \in (65..90) \cup (97..122)
                      /\ ch > 127
                      \* an uppercase letter is a variant of an uppercase one
                      /\ (Class0(ch) = Upper => Class0(Norm(ch)) \in {Upper, Lower})

Equality ==
  \A q \in Near :
    /\ CharEq(q, q, TRUE, FALSE) /\ CharEq(q, q, FALSE, FALSE)
    /\ CharEq(q, ch, TRUE, FALSE) = (q = ch)
    /\ CharEq(q, ch, FALSE, FALSE) = CharEq(ch, q, FALSE, FALSE)
    \* Ignoring more never rejects more.
    /\ CharEq(q, ch, TRUE, FALSE) => CharEq(q, ch, FALSE, FALSE)
    /\ CharEq(q, ch, TRUE, TRUE) => CharEq(q, ch, FALSE, TRUE)
    \* Normalization concerns the candidate's characters only,
    /\ InNormRange(q) => \A s \in BOOLEAN : CharEq(q, ch, s, TRUE) = CharEq(q, ch, s, FALSE)
    \* and those of the table only.
    /\ (Norm(ch) = ch) => \A s \in BOOLEAN : CharEq(q, ch, s, TRUE) = CharEq(q, ch, s, FALSE)
    \* What an accented letter matches is what its plain letter does.
    /\ (Norm(ch) # ch /\ ~InNormRange(q)) =>
          \A s \in BOOLEAN : CharEq(q, ch, s, TRUE) = CharEq(q, Norm(ch), s, FALSE)

Classes ==
  /\ Class0(ch) \in 0..7
  /\ \A s \in SchemeNames : ClassOf(ch, s) \in {White, NonWord, Delim, Lower, Upper, Letter, Number}
  /\ (Class0(ch) = 7) = (ch \in {44, 58, 59, 124})
  /\ \A s \in SchemeNames : (ClassOf(ch, s) = Delim) =
        (ch = 47 \/ (s # "path" /\ ch \in {44, 58, 59, 124}))

Encoding == Utf8Len(ch) \in 1..4 /\ (Utf8Len(ch) = 1) = (ch < 128)

(* The bonuses, by scheme, of a character of class `cur` (columns: Lower,
   Upper, Letter, Number) after one of class `prev`. *)
Table(s) ==
  LET w == IF s = "default" THEN 10 ELSE 8
      d == IF s = "history" THEN 8 ELSE 9
  IN [White   |-> <<w, w, w, w>>,
      Delim   |-> <<d, d, d, d>>,
      NonWord |-> <<8, 8, 8, 8>>,
      Lower   |-> <<0, 7, 0, 7>>,
      Upper   |-> <<0, 0, 0, 7>>,
      Letter  |-> <<0, 0, 0, 7>>,
      Number  |-> <<0, 0, 0, 0>>]

Named(c) == CASE c = White -> "White" [] c = Delim -> "Delim" [] c = NonWord -> "NonWord"
              [] c = Lower -> "Lower" [] c = Upper -> "Upper" [] c = Letter -> "Letter"
              [] c = Number -> "Number"

AllClasses == {White, NonWord, Delim, Lower, Upper, Letter, Number}

Bonuses ==
  ch = From =>
    \A s \in SchemeNames : \A prev \in AllClasses :
      /\ <<Bonus(prev, Lower, s), Bonus(prev, Upper, s), Bonus(prev, Letter, s), Bonus(prev, Number, s)>>
           = Table(s)[Named(prev)]
      /\ Bonus(prev, NonWord, s) = 8
      /\ Bonus(prev, White, s) = Table(s).White[1]
      /\ Bonus(prev, Delim, s) = (CASE prev = White -> Table(s).White[1]
                                    [] prev = Delim -> Table(s).Delim[1]
                                    [] prev = NonWord -> 8
                                    [] OTHER -> 0)
      /\ Bonus(InitClass(s), Lower, s) = (IF s = "default" THEN 10 ELSE IF s = "path" THEN 9 ELSE 8)
=============================================================================
