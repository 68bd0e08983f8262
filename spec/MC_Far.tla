------------------------------- MODULE MC_Far -------------------------------
(***************************************************************************
 Candidates with a filler which keeps growing: from some length on, whatever
 the query, a character more has always the same effect.
 ***************************************************************************)
EXTENDS Far, Parser, Json

CONSTANTS Algos, Cases, Norms, Schemes, Kinds, Texts, CAlpha, MaxPre, MaxSuf, Fillers, Terms, More, Lengths, Every

VARIABLES cfg, qry, head, foot, fill, count

mvars == <<cfg, qry, head, foot, fill, count>>

(* "_", "x", "1", "/", and an accented letter. *)
SomeFillers == {95, 120, 49, 47, 233}
FewFillers == {120, 47, 8364}

TextsAB == {<<97>>, <<97, 98>>}
TextsAll == {<<97>>, <<97, 98>>, <<98, 97, 98>>, <<98, 32>>}

Init ==
  /\ cfg \in [algo : Algos, case : Cases, norm : Norms, scheme : Schemes]
  /\ qry \in UNION {[1..m -> {<<t>> : t \in [kind : Kinds, inv : {FALSE}, text : Texts]}] : m \in 1..Terms}
  /\ fill \in Fillers
  /\ IsFiller(cfg, qry, fill)
  /\ head \in UNION {[1..m -> CAlpha] : m \in 0..MaxPre}
  /\ foot \in UNION {[1..m -> CAlpha] : m \in 0..MaxSuf}
  /\ count = LongEnough(qry)

Next == /\ count < LongEnough(qry) + More
        /\ count' = count + 1
        /\ UNCHANGED <<cfg, qry, head, foot, fill>>

Spec == Init /\ [][Next]_mvars

Base == LongEnough(qry)

(* What a candidate with count fillers replies is what one with the base number of
   them does, brought there. *)
Law ==
  LET r == MatchQuery(cfg, qry, Stretched(head, fill, count, foot))
      b == MatchQuery(cfg, qry, Stretched(head, fill, Base, foot))
      e == [op |-> "r", c |-> head, x |-> fill, k |-> Base, n |-> count, t |-> foot, r |-> Reply(r),
            b |-> IF r.ok THEN ToRanges(Stretched(head, fill, count, foot), r.pos) ELSE <<>>]
      c == Brought(cfg, qry, e)
  IN /\ r.ok = b.ok
     /\ r.ok => /\ r.score = b.score + (count - Base) * PerFiller(cfg, qry, head, fill, Base, foot)
                /\ r.pos = {p \in b.pos : p <= Len(head)} \cup {p + count - Base : p \in {y \in b.pos : y > Len(head)}}
     /\ Conforms(c) /\ RangesWellFormed(c) /\ (r.ok => TailOf(c) = ToRanges(c.cand, b.pos))

(* No filler is ever matched, and one more is worth nothing, or a point less for every term. *)
Small ==
  LET r == MatchQuery(cfg, qry, Stretched(head, fill, count, foot))
  IN /\ \A p \in r.pos : p <= Len(head) \/ p > Len(head) + count
     /\ PerFiller(cfg, qry, head, fill, count, foot) \in -Len(qry)..0

(***************************************************************************
 Behaviours: the same queries and candidates, with very many fillers.
 ***************************************************************************)
Plenty == <<70000, 1048577, 131073, 300001, 16777300, 65535, 65536>>
Huge == <<70000, 16777300, 33554500, 131073, 16777217, 300001, 8388609>>

(* The matrices of the second metric don't fit in memory when it has to match
   something on both sides. *)
Capped(m) == IF cfg.algo = 2 /\ m > 300001 THEN 300001 ELSE IF fill >= 128 /\ m > 4000000 THEN 4000000 + (m % 1000) ELSE m

Hash(s, h) == FoldLeft(LAMBDA a, v : (a * 31 + v) % 65521, h, s)

Pick == Hash(head, Hash(foot, fill + 7 * cfg.algo + 11 * QueryLen(qry)))

Asked(op) ==
  [o |-> "f", op |-> op, s |-> 1, p |-> 1, c |-> head, x |-> fill, k |-> Base,
   n |-> Capped(Lengths[1 + (Pick % Len(Lengths))]), t |-> foot]

Emit ==
  PrintT("BEHAVIOUR " \o ToJson(
    << [o |-> "cfg", s |-> 1, a |-> cfg.algo, c |-> cfg.case, n |-> cfg.norm, h |-> cfg.scheme],
       [o |-> "parse", p |-> 1, q |-> Written(qry)], Asked("d"), Asked("r") >>))

(* One in so many of them. *)
Sometimes == (Pick % Every # 0) \/ Emit

Stretches == Init /\ [][FALSE]_mvars
=============================================================================
