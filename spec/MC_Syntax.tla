------------------------------ MODULE MC_Syntax ------------------------------
(***************************************************************************
 Tests of the parser: every query the automaton of MC_Parser reads, with
 candidates made from what it stands for, which tell its kinds of terms apart:
 its texts alone, with something before, with something after, and together.
 ***************************************************************************)
EXTENDS MC_Parser, Json

CONSTANTS Raw,       \* parse the queries without the extended syntax
          OnlyEmpty, \* keep the queries without terms only
          Algo, Every \* and one in so many of the others

Terms_(q) == FlattenSeq(q)

Cands(q) ==
  LET ts  == [x \in 1..Len(Terms_(q)) |-> Terms_(q)[x].text]
      all == Joined(ts, <<120>>)
      in(t) == <<t, <<120>> \o t, t \o <<120>>>>
  IN <<all, Joined(Reverse(ts), <<Space>>), <<>>, <<Space>>>> \o FlattenSeq([x \in 1..Len(ts) |-> in(ts[x])])

RawCands(s) == <<s, Joined([x \in 1..Len(s) |-> <<s[x]>>], <<120>>), Tail(s), SubSeq(s, 1, Len(s) - 1),
                 SelectSeq(s, LAMBDA c : c # Space), SelectSeq(s, LAMBDA c : c # Backslash),
                 SelectSeq(s, LAMBDA c : c # Bar)>>

(* So that the sample doesn't depend on anything else. *)
Hash(s) == FoldLeft(LAMBDA a, c : (a * 31 + c) % 1009, 7, s)

Emit ==
  LET q  == ParseExtended(text')
      cs == IF Raw THEN RawCands(text') ELSE IF q = <<>> THEN <<<<>>, text', <<97>>, <<233, 32>>>> ELSE Cands(q)
  IN IF (OnlyEmpty /\ q # <<>>) \/ Hash(text') % Every # 0 THEN TRUE
     ELSE PrintT("BEHAVIOUR " \o ToJson(
       <<[o |-> "new", s |-> 1, a |-> Algo],
         [o |-> IF Raw THEN "raw" ELSE "parse", p |-> 1, q |-> text']>>
       \o [x \in 1..Len(cs) |-> [o |-> "x", s |-> 1, p |-> 1, c |-> cs[x]]]))
=============================================================================
