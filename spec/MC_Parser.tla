------------------------------ MODULE MC_Parser ------------------------------
(***************************************************************************
 The parser as an automaton reading the query one character at a time, as
 against the grammar of module Parser: they agree on every query of a small
 size.  Plus what the syntax is documented to be, on the same queries.
 ***************************************************************************)
EXTENDS Parser, Naturals

CONSTANTS Alpha, MaxLen

VARIABLES text,    \* the characters read so far
          word,    \* those of the current word
          conds,   \* the conditions which are complete
          open,    \* the terms of the one which isn't
          bar      \* whether a bar was seen since the last term

mvars == <<text, word, conds, open, bar>>

Init == text = <<>> /\ word = <<>> /\ conds = <<>> /\ open = <<>> /\ bar = FALSE

(* A word ended: the conditions, the open one and the bar after it. *)
Ended(w, cs, op, br) ==
  IF w = <<>> THEN [conds |-> cs, open |-> op, bar |-> br]
  ELSE IF w = <<Bar>> THEN [conds |-> cs, open |-> op, bar |-> TRUE]
  ELSE LET t == Term(w)
       IN IF t.text = <<>> THEN [conds |-> cs, open |-> op, bar |-> br]
          ELSE IF op # <<>> /\ br THEN [conds |-> cs, open |-> Append(op, t), bar |-> FALSE]
          ELSE [conds |-> IF op = <<>> THEN cs ELSE Append(cs, op), open |-> <<t>>, bar |-> FALSE]

Read(c) ==
  /\ text' = Append(text, c)
  /\ IF c = Space
     THEN IF text # <<>> /\ text[Len(text)] = Backslash
          THEN \* the backslash was an escape
               /\ word' = [word EXCEPT ![Len(word)] = Space]
               /\ UNCHANGED <<conds, open, bar>>
          ELSE LET e == Ended(word, conds, open, bar)
               IN /\ word' = <<>>
                  /\ conds' = e.conds /\ open' = e.open /\ bar' = e.bar
     ELSE /\ word' = Append(word, c)
          /\ UNCHANGED <<conds, open, bar>>

Next == Len(text) < MaxLen /\ \E c \in Alpha : Read(c)

Spec == Init /\ [][Next]_mvars

(* What the automaton says should the query end here. *)
Result ==
  LET e == Ended(word, conds, open, bar)
  IN IF e.open = <<>> THEN e.conds ELSE Append(e.conds, e.open)

Agree == ParseExtended(text) = Result

(* The documented syntax. *)
Q == ParseExtended(text)
NoEmpties == \A x \in 1..Len(Q) : Len(Q[x]) > 0 /\ \A y \in 1..Len(Q[x]) : Q[x][y].text # <<>>

(* Without spaces there is at most one term. *)
OneWord == (\A i \in 1..Len(text) : text[i] # Space) =>
             IF text = <<Bar>> \/ Term(text).text = <<>> THEN Q = <<>> ELSE Q = << <<Term(text)>> >>

(* A character which isn't special is text wherever it is: no letter is lost,
   and they stay in order. *)
Letters(s) == SelectSeq(s, LAMBDA c : c >= 97)
TextOf(q) == FoldLeft(LAMBDA a, cond : FoldLeft(LAMBDA b, t : b \o t.text, a, cond), <<>>, q)
LettersKept == SelectSeq(TextOf(Q), LAMBDA c : c >= 97 /\ c <= 122) =
               SelectSeq(text, LAMBDA c : c >= 97 /\ c <= 122)

(* Leading, trailing and repeated separators mean nothing. *)
Spaces == /\ ParseExtended(<<Space>> \o text) = Q
          /\ (text = <<>> \/ text[Len(text)] # Backslash) => ParseExtended(Append(text, Space)) = Q

(* The spaces in a term's text are the escaped ones. *)
EscapedSpaces ==
  Len(SelectSeq(TextOf(Q), LAMBDA c : c = Space)) =
  LET esc == {i \in 1..Len(text) : Escaped(text, i)} IN
  \* an escaped space is only lost with a word which... has text anyway
  Len(SetToSeq(esc))

(* Negation is what a leading bang says, and nothing else. *)
Negations ==
  \A x \in 1..Len(Q) : \A y \in 1..Len(Q[x]) :
    Q[x][y].inv => \E w \in {Words(text)[z] : z \in 1..Len(Words(text))} :
                     w[1] = Bang /\ Term(w) = Q[x][y]

(* C14 *)
Literal == ParseRaw(text) =
             IF text = <<>> THEN <<>>
             ELSE << << [kind |-> "fuzzy", inv |-> FALSE, text |-> text] >> >>
=============================================================================
