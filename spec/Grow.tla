-------------------------------- MODULE Grow --------------------------------
(***************************************************************************
 Queries and candidates too long to be written out: a unit repeated n times
 in the one, in the other or in both.

 From some number of units on, one more always has the same effect: whether
 there is a match doesn't change, the score changes by a constant, and so
 does where every range starts and ends (MC_Grow checks that).  So what a call
 with n units has to reply follows from what one with k and one with k + 1
 have to.

 A plan is a record of the query's prefix, unit and suffix, which a second unit
 and what follows that come after, the candidate's prefix, unit and suffix, and
 whether the query is an extended one.
 ***************************************************************************)
EXTENDS Props, Parser

Repeated(u, n) ==
  IF u = <<>> THEN <<>> ELSE [j \in 1..n * Len(u) |-> u[1 + ((j - 1) % Len(u))]]

GrownText(pl, n) == pl.qp \o Repeated(pl.qu, n) \o pl.qs \o Repeated(pl.qv, n) \o pl.qt
GrownQuery(pl, n) == IF pl.ext THEN ParseExtended(GrownText(pl, n)) ELSE ParseRaw(GrownText(pl, n))
GrownCand(pl, n) == pl.cp \o Repeated(pl.cu, n) \o pl.cs

(* What a call with n units replies, with the ranges. *)
Grown(c, pl, n) ==
  LET cand == GrownCand(pl, n)
      r    == MatchQuery(c, GrownQuery(pl, n), cand)
  IN [ok |-> r.ok, score |-> IF r.ok THEN r.score ELSE 0,
      rs |-> IF r.ok THEN ToRanges(cand, r.pos) ELSE <<>>]

(* Three results in arithmetic progression. *)
Progress(a, b, d, times) ==
  /\ a.ok = b.ok /\ b.ok = d.ok
  /\ Len(a.rs) = Len(b.rs) /\ Len(b.rs) = Len(d.rs)
  /\ d.score - b.score = times * (b.score - a.score)
  /\ \A y \in 1..Len(a.rs) : \A z \in 1..2 :
       d.rs[y][z] - b.rs[y][z] = times * (b.rs[y][z] - a.rs[y][z])

SteadyFrom(c, pl, k) == Progress(Grown(c, pl, k), Grown(c, pl, k + 1), Grown(c, pl, k + 2), 1)

(* What was observed with n units, brought back to k of them. *)
Shrunk(c, pl, e) ==
  LET a == Grown(c, pl, e.k)
      b == Grown(c, pl, e.k + 1)
      d == e.n - e.k
  IN [op |-> e.op, cfg |-> c, query |-> GrownQuery(pl, e.k), cand |-> GrownCand(pl, e.k),
      reply |-> IF e.r[1] # 1 THEN e.r ELSE <<1, e.r[2] - d * (b.score - a.score)>>,
      before |-> <<>>,
      after |-> IF e.op = "d" THEN <<>>
                ELSE IF Len(e.b) = Len(a.rs)
                THEN [y \in 1..Len(e.b) |-> [z \in 1..2 |-> e.b[y][z] - d * (b.rs[y][z] - a.rs[y][z])]]
                ELSE e.b]
=============================================================================
