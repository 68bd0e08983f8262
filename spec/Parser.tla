------------------------------- MODULE Parser -------------------------------
(***************************************************************************
 The extended-search syntax, declaratively: from the characters of a query to
 its conditions.
 ***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Space     == 32
Bang      == 33
Dollar    == 36
Quote     == 39
Backslash == 92
Caret     == 94
Bar       == 124

(* A space preceded by a backslash is part of a word. *)
Escaped(s, i)   == s[i] = Space /\ i > 1 /\ s[i - 1] = Backslash
Separates(s, i) == s[i] = Space /\ ~Escaped(s, i)
(* The backslash of an escaped space isn't part of the word. *)
IsEscape(s, i)  == s[i] = Backslash /\ i < Len(s) /\ s[i + 1] = Space

(* The words: the maximal runs of characters which aren't separators. *)
Words(s) ==
  LET r == FoldLeft(LAMBDA a, i :
             IF Separates(s, i)
             THEN (IF a.cur = <<>> THEN a ELSE [done |-> Append(a.done, a.cur), cur |-> <<>>])
             ELSE IF IsEscape(s, i) THEN a
             ELSE [a EXCEPT !.cur = Append(@, s[i])],
           [done |-> <<>>, cur |-> <<>>], [i \in 1..Len(s) |-> i])
  IN IF r.cur = <<>> THEN r.done ELSE Append(r.done, r.cur)

(* The term a word stands for.  Its text may be empty. *)
Term(w) ==
  LET inv  == Len(w) >= 1 /\ w[1] = Bang
      w1   == IF inv THEN Tail(w) ELSE w
      suf  == Len(w1) > 1 /\ w1[Len(w1)] = Dollar
      w2   == IF suf THEN SubSeq(w1, 1, Len(w1) - 1) ELSE w1
      quo  == Len(w2) >= 1 /\ w2[1] = Quote
      car  == Len(w2) >= 1 /\ w2[1] = Caret
      text == IF quo \/ car THEN Tail(w2) ELSE w2
      kind == IF quo THEN (IF inv THEN "fuzzy" ELSE "exact")
              ELSE IF car THEN (IF suf THEN "equal" ELSE "prefix")
              ELSE IF suf THEN "suffix"
              ELSE IF inv THEN "exact" ELSE "fuzzy"
  IN [kind |-> kind, inv |-> inv, text |-> text]

(* Two consecutive terms are alternatives of the same condition iff there is a
   bar between them. *)
ParseExtended(s) ==
  FoldLeft(LAMBDA a, w :
     IF w = <<Bar>> THEN [a EXCEPT !.bar = TRUE]
     ELSE LET t == Term(w)
          IN IF t.text = <<>> THEN a
             ELSE IF a.bar /\ a.conds # <<>>
             THEN [conds |-> [a.conds EXCEPT ![Len(a.conds)] = Append(@, t)], bar |-> FALSE]
             ELSE [conds |-> Append(a.conds, <<t>>), bar |-> FALSE],
   [conds |-> <<>>, bar |-> FALSE], Words(s)).conds

(* Without the extended syntax: a single fuzzy term. *)
ParseRaw(s) ==
  IF s = <<>> THEN <<>> ELSE << << [kind |-> "fuzzy", inv |-> FALSE, text |-> s] >> >>

(***************************************************************************
 The other way around: a way to write conditions, provided that no text starts
 with a marker or ends with a dollar or a backslash.
 ***************************************************************************)
Word(t) ==
  LET text == FlattenSeq([x \in 1..Len(t.text) |->
                IF t.text[x] = Space THEN <<Backslash, Space>> ELSE <<t.text[x]>>])
      before == CASE t.kind = "fuzzy"  -> IF t.inv THEN <<Bang, Quote>> ELSE <<>>
                  [] t.kind = "exact"  -> IF t.inv THEN <<Bang>> ELSE <<Quote>>
                  [] t.kind = "suffix" -> IF t.inv THEN <<Bang>> ELSE <<>>
                  [] OTHER             -> IF t.inv THEN <<Bang, Caret>> ELSE <<Caret>>
      after  == IF t.kind \in {"suffix", "equal"} THEN <<Dollar>> ELSE <<>>
  IN before \o text \o after

(* The words s, with sep between each two. *)
Joined(s, sep) ==
  FoldLeft(LAMBDA a, x : IF x = 1 THEN s[1] ELSE a \o sep \o s[x],
           <<>>, [x \in 1..Len(s) |-> x])

Written(conds) ==
  Joined([x \in 1..Len(conds) |->
            Joined([y \in 1..Len(conds[x]) |-> Word(conds[x][y])], <<Space, Bar, Space>>)],
         <<Space>>)
=============================================================================
