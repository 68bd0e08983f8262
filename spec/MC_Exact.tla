------------------------------ MODULE MC_Exact ------------------------------
(***************************************************************************
 Exact terms.  The search proceeds by attempts, each from the next occurrence
 of the term's first character, as the implementation does; it always ends,
 and in the occurrence the specification prescribes.
 ***************************************************************************)
EXTENDS Props

CONSTANTS QAlpha, CAlpha, MaxQ, MaxC, Cases, Norms, Schemes

VARIABLES cfg, text, cand,
          from,     \* where the next attempt starts
          best,     \* the occurrence chosen so far, 0 if none
          done

mvars == <<cfg, text, cand, from, best, done>>

Init ==
  /\ cfg \in [algo : {1}, case : Cases, norm : Norms, scheme : Schemes]
  /\ text \in UNION {[1..m -> QAlpha] : m \in 1..MaxQ}
  /\ cand \in UNION {[1..n -> CAlpha] : n \in 0..MaxC}
  /\ from = 1 /\ best = 0 /\ done = FALSE

P == Prep(cfg, cand)
K == Keys(cfg, P, text)
M == Len(text)
N == Len(cand)

Starts(k) == {s \in from..N : Eq(k, 1, s)}

(* How many characters match from s on, until the first one which doesn't. *)
RECURSIVE MatchLen(_, _, _)
MatchLen(k, s, i) ==
  IF i > M \/ s + i - 1 > N THEN i - 1
  ELSE IF Eq(k, i, s + i - 1) THEN MatchLen(k, s, i + 1) ELSE i - 1

Attempt ==
  LET p == P
      k == K
      ss == Starts(k)
      s == CHOOSE x \in ss : \A y \in ss : x <= y
      l == MatchLen(k, s, 1)
      better == best = 0 \/ p.bon[s] > p.bon[best]
      new == IF l = M /\ better THEN s ELSE best
      \* the attempt looked at all the characters that there are
      spent == s + l > N \/ (l = M /\ s + M - 1 = N)
  IN /\ ~done
     /\ IF ss = {} THEN done' = TRUE /\ UNCHANGED <<from, best>>
        ELSE /\ from' = s + 1
             /\ best' = new
             /\ done' = ((l = M /\ p.bon[s] >= BoundaryPts) \/ spent)
     /\ UNCHANGED <<cfg, text, cand>>

Next == Attempt

Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)

OccursAt == {s \in 1..(N - M + 1) : \A i \in 1..M :
                  CharEq(text[i], cand[s + i - 1], IsSensitive(cfg, text), cfg.norm)}

(* C09, without any algorithm. *)
Prescribed ==
  LET bnd == {s \in OccursAt : P.bon[s] >= BoundaryPts}
      top == {s \in OccursAt : \A o \in OccursAt : P.bon[o] <= P.bon[s]}
      c   == IF bnd # {} THEN bnd ELSE top
  IN CHOOSE s \in c : \A o \in c : s <= o

Result == Exact(P, K)

AsPrescribed ==
  /\ Result.ok = (OccursAt # {})
  /\ Result.ok => /\ Result.pos = [i \in 1..M |-> Prescribed + i - 1]
                  /\ Result.score = WindowScore(P, K, Prescribed, Prescribed + M - 1).score

(* The attempts find it. *)
Found == done => IF Result.ok THEN best = Result.pos[1] ELSE best = 0

(* C19 *)
Advances == [][from' > from \/ done']_mvars
Terminates == <>done
=============================================================================
