------------------------------- MODULE MC_Swap -------------------------------
(***************************************************************************
 Replacing a character of the candidate which the query has nothing to do with
 by another one of the same class changes nothing, whatever their encodings.
 ***************************************************************************)
EXTENDS Props

CONSTANTS Kinds, Texts, CAlpha, MaxC, Swaps, Cases, Norms, Schemes

VARIABLES cfg, qry, cand, now

mvars == <<cfg, qry, cand, now>>

(* The swaps: pairs of characters of a class, the second one not ASCII. *)
SomeSwaps == {<<120, 223>>, <<88, 209>>, <<55, 189>>, <<95, 8364>>}

(* "a", "ab" and "b ". *)
SomeTexts == {<<97>>, <<97, 98>>, <<98, 32>>}

Init ==
  /\ cfg \in [algo : {1, 2}, case : Cases, norm : Norms, scheme : Schemes]
  /\ \E t \in [kind : Kinds, inv : {FALSE}, text : Texts] : qry = << <<t>> >>
  /\ cand \in UNION {[1..n -> CAlpha] : n \in 1..MaxC}
  /\ now = cand

Swap(i) ==
  \E s \in Swaps :
    /\ now[i] = s[1]
    /\ Irrelevant(cfg, qry, s[1]) /\ Irrelevant(cfg, qry, s[2])
    /\ ClassOf(s[1], cfg.scheme) = ClassOf(s[2], cfg.scheme)
    /\ now' = [now EXCEPT ![i] = s[2]]
    /\ UNCHANGED <<cfg, qry, cand>>

Next == \E i \in 1..Len(now) : Swap(i)

Spec == Init /\ [][Next]_mvars

A == MatchQuery(cfg, qry, cand)
B == MatchQuery(cfg, qry, now)

Same == A = B

(* The ranges are shifted by the difference in bytes. *)
Shifted ==
  LET a == Offsets(cand)
      b == Offsets(now)
      wider(j) == Cardinality({x \in 1..(j - 1) : now[x] # cand[x]})
  IN /\ Covered(now, ToRanges(now, B.pos)) = Covered(cand, ToRanges(cand, A.pos))
     /\ Len(ToRanges(now, B.pos)) = Len(ToRanges(cand, A.pos))
     /\ \A j \in 1..Len(a) : b[j] - a[j] >= wider(j) /\ b[j] - a[j] <= 2 * wider(j)

Pairs == Swapped([cfg |-> cfg, query |-> qry, cand |-> cand], [cfg |-> cfg, query |-> qry, cand |-> now])
=============================================================================
