------------------------------ MODULE MC_Fuzzy ------------------------------
(***************************************************************************
 Fuzzy terms, for every candidate of a small size: the algorithms of Match
 against what they are meant to compute, said without any algorithm.
 ***************************************************************************)
EXTENDS Props, FiniteSetsExt

CONSTANTS QAlpha, CAlpha, MaxQ, MaxC, Cases, Norms, Schemes

VARIABLES
  cfg, text, cand,     \* settings, term, candidate
  p, k,                \* what they are prepared into (see Match)
  emb,                 \* all the ways to match the term
  v1, v2,              \* the results of the two algorithms
  col, best            \* the recurrence of V2: last column, best score so far

mvars == <<cfg, text, cand, p, k, emb, v1, v2, col, best>>

Settings == [algo : {1}, case : Cases, norm : Norms, scheme : Schemes]

M == Len(text)
N == Len(cand)

CharsAlike(q, c) == CharEq(q, c, IsSensitive(cfg, text), cfg.norm)

(* All the ways to match the term: the sequences of positions at which its
   characters occur in order. *)
Embeddings(cd) ==
  {ps \in {SetToSortSeq(S, <) : S \in IF M > Len(cd) THEN {} ELSE kSubset(M, 1..Len(cd))} :
     \A i \in 1..M : CharsAlike(text[i], cd[ps[i]])}

(***************************************************************************
 V2's recurrence, one column (character of the candidate) at a time.  A cell
 holds the best score of the first i characters of the term so far (h), the
 length of the run of consecutive matches ending here (c), whether a gap is
 open (gap), and whether the first i characters have all been found (on).
 ***************************************************************************)
NoCell == [h |-> 0, c |-> 0, gap |-> FALSE, on |-> FALSE]

RECURSIVE Column(_, _, _, _, _)
Column(pr, cd, old, j, new) ==
  LET i    == Len(new) + 1
      same == CharsAlike(text[i], cd[j])
      left == old[i]
      diag == IF i = 1 THEN [NoCell EXCEPT !.on = TRUE] ELSE old[i - 1]
      on   == left.on \/ (diag.on /\ same)
      s2   == Max2(0, left.h - (IF left.gap THEN GapExtPts ELSE GapStartPts))
      b    == pr.bon[j]
      run  == diag.c + 1
      fb   == pr.bon[j - run + 1]
      cons == IF run > 1 /\ b >= BoundaryPts /\ b > fb THEN 1 ELSE run
      bb   == IF cons > 1 THEN Max({b, fb, ConsecutivePts}) ELSE b
      cell == IF ~on THEN NoCell
              ELSE IF ~same THEN [h |-> s2, c |-> 0, gap |-> TRUE, on |-> TRUE]
              ELSE IF i = 1 THEN [h |-> MatchPts + 2 * b, c |-> 1, gap |-> FALSE, on |-> TRUE]
              ELSE IF diag.h + MatchPts + bb < s2
              THEN [h |-> Max2(diag.h + MatchPts + b, s2), c |-> 0,
                    gap |-> diag.h + MatchPts + b < s2, on |-> TRUE]
              ELSE [h |-> diag.h + MatchPts + bb, c |-> cons, gap |-> FALSE, on |-> TRUE]
  IN IF i > M THEN new ELSE Column(pr, cd, old, j, Append(new, cell))

Init ==
  /\ cfg \in Settings
  /\ text \in UNION {[1..m -> QAlpha] : m \in 1..MaxQ}
  /\ cand = <<>>
  /\ p = Prep(cfg, cand) /\ k = Keys(cfg, p, text)
  /\ emb = {} /\ v1 = NoMatch /\ v2 = NoMatch
  /\ col = [i \in 1..M |-> NoCell] /\ best = [h |-> 0, at |-> 0]

(* Candidates grow one character at a time. *)
Next ==
  /\ Len(cand) < MaxC
  /\ \E c \in CAlpha : cand' = Append(cand, c)
  /\ UNCHANGED <<cfg, text>>
  /\ p' = Prep(cfg, cand') /\ k' = Keys(cfg, p', text)
  /\ emb' = Embeddings(cand')
  /\ v1' = FuzzyV1(p', k') /\ v2' = FuzzyV2(p', k')
  /\ col' = Column(p', cand', col, Len(cand'), <<>>)
  /\ best' = IF col'[M].h > best.h THEN [h |-> col'[M].h, at |-> Len(cand')] ELSE best

Spec == Init /\ [][Next]_mvars

Same(i, j) == CharsAlike(text[i], cand[j])

(* The comparison keys are those of the character equality. *)
KeysAgree == \A i \in 1..M : \A j \in 1..N : Eq(k, i, j) = Same(i, j)

(* C01 *)
Subsequence == /\ v1.ok = (emb # {})
               /\ v2.ok = (emb # {})
               /\ (Len(Greedy(p, k)) = M) = (emb # {})

(* C02 *)
Spelled == /\ v1.ok => v1.pos \in emb
           /\ v2.ok => v2.pos \in emb

(* The score of an alignment occupying s..e, from its definition: a character
   of a run of consecutive matches gets at least the bonus of the run, which
   is that of its first character or of a greater boundary within it. *)
RECURSIVE RunBonus(_, _)
RunBonus(ps, x) ==
  LET b == p.bon[ps[x]]
  IN IF x = 1 \/ ps[x - 1] # ps[x] - 1 THEN b
     ELSE LET f == RunBonus(ps, x - 1) IN IF b >= BoundaryPts /\ b > f THEN b ELSE f

CharBonus(ps, x) ==
  IF x = 1 \/ ps[x - 1] # ps[x] - 1 THEN p.bon[ps[x]]
  ELSE Max({p.bon[ps[x]], RunBonus(ps, x), ConsecutivePts})

GapOf(g) == IF g = 0 THEN 0 ELSE GapStartPts + (g - 1) * GapExtPts

RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)

Score(ps) ==
  SumTo(LAMBDA x : MatchPts + CharBonus(ps, x) * (IF x = 1 THEN 2 ELSE 1)
                   - (IF x = 1 THEN 0 ELSE GapOf(ps[x] - ps[x - 1] - 1)), Len(ps))

(* C07: the earliest end, then the latest start, then greedily. *)
V1Alignment ==
  LET e == Min({ps[M] : ps \in emb})
      s == Max({ps[1] : ps \in {x \in emb : x[M] = e}})
  IN CHOOSE ps \in emb :
       /\ ps[1] = s /\ ps[M] = e
       /\ \A o \in emb : (o[1] >= s /\ o[M] = e) => \A i \in 1..M : ps[i] <= o[i]

V1Window == v1.ok => v1.pos = V1Alignment /\ v1.score = Score(V1Alignment)

(* C08 *)
V2Recurrence == (v2.ok /\ M > 1) => v2.score = best.h /\ v2.pos[M] = best.at

V2Single ==
  (v2.ok /\ M = 1) =>
     LET mx == Max({p.bon[ps[1]] : ps \in emb})
     IN /\ v2.score = MatchPts + 2 * mx
        /\ v2.pos[1] = Min({ps[1] : ps \in {x \in emb : p.bon[x[1]] = mx}})

(* A score is at most what the characters are worth with the best bonus each. *)
Bounded ==
  /\ v1.ok => v1.score <= (MatchPts + 10) * M + 10
  /\ v2.ok => v2.score > 0 /\ v2.score <= (MatchPts + 10) * M + 10

(* Appending to a candidate keeps it matching. *)
Monotonic == [][v1.ok => v1'.ok]_mvars
=============================================================================
