------------------------------ MODULE MC_Ranges ------------------------------
(***************************************************************************
 The set of matched ranges kept by the implementation, a sequence sorted by
 start: inserting into it, after any history of insertions, keeps it sorted,
 disjoint, maximally merged, covering exactly what was inserted, and leaves
 whatever was in the buffer before it alone.
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Size, Before

VARIABLES buf,   \* the whole buffer
          cov    \* the bytes inserted so far

mvars == <<buf, cov>>

BeforeBuf == <<<<3, 9>>, <<0, 4>>>>

Init == buf = Before /\ cov = {}

Start(r) == r[1]
End(r) == r[2]
Own == SubSeq(buf, Len(Before) + 1, Len(buf))

(* Merges the range at i with those following it that it touches. *)
RECURSIVE MergeFollowing(_, _)
MergeFollowing(rs, i) ==
  IF i >= Len(rs) \/ Start(rs[i + 1]) > End(rs[i]) THEN rs
  ELSE MergeFollowing(
         SubSeq(rs, 1, i - 1)
           \o << <<Start(rs[i]), IF End(rs[i]) >= End(rs[i + 1]) THEN End(rs[i]) ELSE End(rs[i + 1])>> >>
           \o SubSeq(rs, i + 2, Len(rs)), i)

InsertBefore(rs, i, r) == SubSeq(rs, 1, i - 1) \o <<r>> \o SubSeq(rs, i, Len(rs))

MaxEnd(r, s) == IF End(r) >= End(s) THEN End(r) ELSE End(s)

Insert(rs, r) ==
  LET same == {i \in 1..Len(rs) : Start(rs[i]) = Start(r)}
      at   == Cardinality({i \in 1..Len(rs) : Start(rs[i]) < Start(r)}) + 1
  IN IF same # {}
     THEN LET i == CHOOSE x \in same : TRUE
          IN IF End(rs[i]) >= End(r) THEN rs
             ELSE MergeFollowing([rs EXCEPT ![i] = <<Start(@), End(r)>>], i)
     ELSE IF at = 1
     THEN IF rs = <<>> THEN <<r>>
          ELSE IF End(r) >= Start(rs[1])
          THEN MergeFollowing([rs EXCEPT ![1] = <<Start(r), MaxEnd(r, @)>>], 1)
          ELSE InsertBefore(rs, 1, r)
     ELSE IF at > Len(rs)
     THEN IF Start(r) <= End(rs[at - 1])
          THEN [rs EXCEPT ![at - 1] = <<Start(@), MaxEnd(r, @)>>]
          ELSE Append(rs, r)
     ELSE LET touchesPrev == Start(r) <= End(rs[at - 1])
              touchesNext == End(r) >= Start(rs[at])
          IN CASE touchesPrev /\ touchesNext ->
                    MergeFollowing([rs EXCEPT ![at - 1] = <<Start(@), MaxEnd(r, @)>>], at - 1)
               [] touchesPrev /\ ~touchesNext ->
                    [rs EXCEPT ![at - 1] = <<Start(@), MaxEnd(r, @)>>]
               [] ~touchesPrev /\ touchesNext ->
                    MergeFollowing([rs EXCEPT ![at] = <<Start(r), MaxEnd(r, @)>>], at)
               [] OTHER -> InsertBefore(rs, at, r)

Add(a, b) ==
  /\ buf' = Before \o Insert(Own, <<a, b>>)
  /\ cov' = cov \cup a..(b - 1)

(* No match after all: only what was inserted is dropped. *)
Clear == buf' = Before /\ cov' = {}

Next == Clear \/ \E a \in 0..(Size - 1) : \E b \in (a + 1)..Size : Add(a, b)

Spec == Init /\ [][Next]_mvars

BytesOf(rs) == UNION {Start(rs[i])..(End(rs[i]) - 1) : i \in 1..Len(rs)}

Exactly == BytesOf(Own) = cov
Sorted == \A i \in 1..Len(Own) :
            /\ Start(Own[i]) < End(Own[i])
            /\ i < Len(Own) => End(Own[i]) < Start(Own[i + 1])
Kept == SubSeq(buf, 1, Len(Before)) = Before
OnlyGrows == [][cov \subseteq cov' \/ buf' = Before]_mvars
=============================================================================
