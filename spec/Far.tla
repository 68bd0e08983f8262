--------------------------------- MODULE Far ---------------------------------
(***************************************************************************
 Candidates too long to be written out: a filler, i.e. a character the query
 has nothing to do with, repeated n times between a prefix and a suffix.

 Once the filler is long enough a character more of it always has the same
 effect: what the candidate matches is unchanged, what is matched after the
 filler is moved by one, and the score changes by a constant (MC_Far checks
 that).  So what a call on the candidate with n fillers has to reply follows
 from what it has to reply for a base number of them.
 ***************************************************************************)
EXTENDS Props

QueryLen(qry) ==
  FoldLeft(LAMBDA a, cond : FoldLeft(LAMBDA b, t : b + Len(t.text), a, cond), 0, qry)

(* How long is long enough: what scores at most 36 points for the first
   character and 26 for the others is forgotten by then. *)
LongEnough(qry) == 12 + 26 * QueryLen(qry)

Stretched(pre, x, n, suf) == pre \o [j \in 1..n |-> x] \o suf

IsFiller(cfg, qry, x) == Irrelevant(cfg, qry, x)

(* What a filler more is worth. *)
PerFiller(cfg, qry, pre, x, k, suf) ==
  LET a == MatchQuery(cfg, qry, Stretched(pre, x, k, suf))
      b == MatchQuery(cfg, qry, Stretched(pre, x, k + 1, suf))
  IN IF a.ok /\ b.ok THEN b.score - a.score ELSE 0

(* The byte offset o of a candidate with n fillers, moved to where it is with
   k of them.  What is within the filler stays there. *)
Moved(o, before, w, n, k) ==
  IF o <= before THEN o
  ELSE IF o >= before + n * w THEN o - (n - k) * w
  ELSE before + w * (((o - before) \div w) % k) + ((o - before) % w)

(* What was observed of a candidate with n fillers, brought back to k. *)
Brought(cfg, qry, e) ==
  LET cand == Stretched(e.c, e.x, e.k, e.t)
      off  == Offsets(e.c)
      bef  == off[Len(off)]
      w    == Utf8Len(e.x)
      rpl  == IF e.r[1] # 1 THEN e.r
              ELSE <<1, e.r[2] - (e.n - e.k) * PerFiller(cfg, qry, e.c, e.x, e.k, e.t)>>
  IN [op |-> e.op, cfg |-> cfg, query |-> qry, cand |-> cand, reply |-> rpl,
      before |-> <<>>,
      after |-> IF e.op = "d" THEN <<>>
                ELSE [y \in 1..Len(e.b) |-> <<Moved(e.b[y][1], bef, w, e.n, e.k),
                                              Moved(e.b[y][2], bef, w, e.n, e.k)>>]]

(* Whether the above applies. *)
Sound(cfg, qry, e) ==
  /\ IsFiller(cfg, qry, e.x)
  /\ e.k >= LongEnough(qry) /\ e.n > e.k + 1
=============================================================================
