------------------------------- MODULE Match -------------------------------
(***************************************************************************
 How one term of a query is matched against one candidate.

 A term is a record
    kind  "fuzzy", "exact", "prefix", "suffix" or "equal"
    inv   whether it is negated
    text  its characters
 The settings of a metric are a record
    algo    1 (FzfV1) or 2 (FzfV2)
    case    "sensitive", "insensitive" or "smart"
    norm    whether candidates are normalized
    scheme  "default", "path" or "history"
 The result of matching a term is a record
    ok     whether the candidate satisfies the term
    score  its score, 0 if it doesn't
    pos    the strictly increasing sequence of the (1-based) indices of the
           characters of the candidate which are matched
 ***************************************************************************)
EXTENDS Chars, SequencesExt

NoMatch == [ok |-> FALSE, score |-> 0, pos |-> <<>>]

HasUpper(text) == \E i \in 1..Len(text) : IsUpper(text[i])

IsSensitive(cfg, text) ==
  CASE cfg.case = "sensitive" -> TRUE
    [] cfg.case = "insensitive" -> FALSE
    [] OTHER -> HasUpper(text)

Idx(n) == [j \in 1..n |-> j]

(***************************************************************************
 What matching needs to know about a candidate, term aside: the bonus of each
 of its characters and the keys its characters are compared by.
 ***************************************************************************)
Prep(cfg, cand) ==
  LET n == Len(cand)
      cls == TLCEval([j \in 1..n |-> ClassOf(cand[j], cfg.scheme)])
      nrm == IF cfg.norm THEN TLCEval([j \in 1..n |-> Norm(cand[j])]) ELSE cand
      fld == IF cfg.case = "sensitive" THEN cand
             ELSE TLCEval([j \in 1..n |-> Fold(cand[j])])
      nfl == IF ~cfg.norm THEN fld
             ELSE IF cfg.case = "sensitive" THEN nrm
             ELSE TLCEval([j \in 1..n |-> Fold(nrm[j])])
  IN [n |-> n,
      bon |-> TLCEval([j \in 1..n |->
                 Bonus(IF j = 1 THEN InitClass(cfg.scheme) ELSE cls[j - 1],
                       cls[j], cfg.scheme)]),
      raw |-> cand, nrm |-> nrm, fld |-> fld, nfl |-> nfl,
      lead |-> FoldLeft(LAMBDA a, j : IF a = j - 1 /\ cand[j] = 32 THEN j ELSE a, 0, Idx(n)),
      trail |-> FoldLeft(LAMBDA a, c : IF c = 32 THEN a + 1 ELSE 0, 0, cand)]

(* Keys of the characters of a term, and for each of them the keys of the
   candidate's characters it has to be compared with. *)
Keys(cfg, p, text) ==
  LET sens == IsSensitive(cfg, text)
      m == Len(text)
  IN [m |-> m,
      pk |-> TLCEval([i \in 1..m |-> IF sens THEN text[i] ELSE Fold(text[i])]),
      ck |-> TLCEval([i \in 1..m |->
                IF InNormRange(text[i])
                THEN (IF sens THEN p.raw ELSE p.fld)
                ELSE (IF sens THEN p.nrm ELSE p.nfl)])]

Eq(k, i, j) == k.ck[i][j] = k.pk[i]

(***************************************************************************
 The score of the alignment which greedily matches the term, from the left,
 within the characters s..e of the candidate.
 ***************************************************************************)
WindowScore(p, k, s, e) ==
  LET step(a, j) ==
        IF a.i > k.m THEN a
        ELSE IF Eq(k, a.i, j)
        THEN LET b  == p.bon[j]
                 fb == IF ~a.run THEN b
                       ELSE IF b >= BoundaryPts /\ b > a.fb THEN b ELSE a.fb
                 bb == IF ~a.run THEN b
                       ELSE IF fb >= b
                            THEN (IF fb >= ConsecutivePts THEN fb ELSE ConsecutivePts)
                            ELSE (IF b >= ConsecutivePts THEN b ELSE ConsecutivePts)
             IN [i |-> a.i + 1, run |-> TRUE, gap |-> FALSE, fb |-> fb,
                 score |-> a.score + MatchPts + (IF a.i = 1 THEN 2 * bb ELSE bb),
                 pos |-> Append(a.pos, j)]
        ELSE [i |-> a.i, run |-> FALSE, gap |-> TRUE, fb |-> 0,
              score |-> a.score - (IF a.gap THEN GapExtPts ELSE GapStartPts),
              pos |-> a.pos]
      r == FoldLeft(step,
             [i |-> 1, run |-> FALSE, gap |-> FALSE, fb |-> 0, score |-> 0, pos |-> <<>>],
             [x \in 1..(e - s + 1) |-> s + x - 1])
  IN [ok |-> TRUE, score |-> r.score, pos |-> r.pos]

(* The positions of the leftmost (greedy) match of the term, shorter than the
   term if there is none. *)
Greedy(p, k) ==
  FoldLeft(LAMBDA a, j : IF Len(a) < k.m /\ Eq(k, Len(a) + 1, j) THEN Append(a, j) ELSE a,
           <<>>, Idx(p.n))

(***************************************************************************
 FzfV1.  The first match ends at the end of the greedy one; going backwards
 from there the closest start is found.
 ***************************************************************************)
FuzzyV1(p, k) ==
  LET g == Greedy(p, k)
  IN IF Len(g) < k.m THEN NoMatch
     ELSE LET e == g[k.m]
              s == FoldLeft(LAMBDA a, x :
                              LET j == e - x + 1
                              IN IF a.i > 0 /\ Eq(k, a.i, j)
                                 THEN [i |-> a.i - 1, at |-> j] ELSE a,
                            [i |-> k.m, at |-> 0], Idx(e)).at
          IN WindowScore(p, k, s, e)

(***************************************************************************
 FzfV2, terms of one character: the first occurrence with the best bonus.
 ***************************************************************************)
FuzzyOne(p, k) ==
  LET b == FoldLeft(LAMBDA a, j :
                      IF Eq(k, 1, j) /\ (a = 0 \/ p.bon[j] > p.bon[a]) THEN j ELSE a,
                    0, Idx(p.n))
  IN IF b = 0 THEN NoMatch
     ELSE [ok |-> TRUE, score |-> MatchPts + 2 * p.bon[b], pos |-> <<b>>]

(***************************************************************************
 FzfV2, terms of two or more characters.  H[i][j] is the best score of the
 first i characters of the term within the first j of the candidate, C[i][j]
 the length of the run of consecutive matches ending there, 0 if the i-th
 character of the term isn't matched with the j-th of the candidate.
 ***************************************************************************)
Max2(a, b) == IF a >= b THEN a ELSE b

Zeros(n) == [x \in 1..n |-> 0]
From(a, b) == [x \in 1..(b - a + 1) |-> a + x - 1]

(* Row i goes from where its character can first be matched to where, the
   term's last one being matched at `last` at the latest, it can last be. *)
Row1(p, k, first, upto) ==
  FoldLeft(LAMBDA a, j :
     IF Eq(k, 1, j)
     THEN [h |-> Append(a.h, MatchPts + 2 * p.bon[j]), c |-> Append(a.c, 1), gap |-> FALSE]
     ELSE [h |-> Append(a.h, Max2(0, a.h[j - 1] - (IF a.gap THEN GapExtPts ELSE GapStartPts))),
           c |-> Append(a.c, 0), gap |-> TRUE],
   [h |-> Zeros(first - 1), c |-> Zeros(first - 1), gap |-> FALSE], From(first, upto))

RowN(p, k, i, prev, first, upto) ==
  FoldLeft(LAMBDA a, j :
     LET s2 == Max2(0, a.h[j - 1] - (IF a.gap THEN GapExtPts ELSE GapStartPts))
     IN IF ~Eq(k, i, j)
        THEN [h |-> Append(a.h, s2), c |-> Append(a.c, 0), gap |-> TRUE]
        ELSE LET b   == p.bon[j]
                 run == prev.c[j - 1] + 1
                 fb  == p.bon[j - run + 1]
                 brk == run > 1 /\ b >= BoundaryPts /\ b > fb
                 bb  == IF run > 1 /\ ~brk THEN Max2(b, Max2(ConsecutivePts, fb)) ELSE b
                 d   == prev.h[j - 1] + MatchPts
                 \* skipping the character beats continuing the run
                 cut == d + bb < s2
                 s1  == IF cut THEN d + b ELSE d + bb
             IN [h |-> Append(a.h, Max2(s1, s2)),
                 c |-> Append(a.c, IF cut THEN 0 ELSE IF brk THEN 1 ELSE run),
                 gap |-> s1 < s2],
   [h |-> Zeros(first - 1), c |-> Zeros(first - 1), gap |-> FALSE], From(first, upto))

Rows(p, k, g, last) ==
  FoldLeft(LAMBDA rows, i :
     Append(rows, TLCEval(
       IF i = 1 THEN Row1(p, k, g[1], last - k.m + 1)
       ELSE RowN(p, k, i, rows[i - 1], g[i], last - k.m + i))),
   <<>>, Idx(k.m))

(* Follows the scores back from the cell (m, best), one character of the
   candidate after the other, `pref` telling whether a match is preferred to a
   gap when the scores tie. *)
Trace(rows, m, best) ==
  FoldLeft(LAMBDA a, x :
     IF a.i = 0 THEN a
     ELSE LET i   == a.i
              j   == best - x + 1
              s   == rows[i].h[j]
              s1  == IF i > 1 /\ j > 1 THEN rows[i - 1].h[j - 1] ELSE 0
              s2  == IF j > 1 THEN rows[i].h[j - 1] ELSE 0
              nxt == \/ rows[i].c[j] > 1
                     \/ i < m /\ j < Len(rows[i + 1].c) /\ rows[i + 1].c[j + 1] > 0
              hit == s > s1 /\ (s > s2 \/ (s = s2 /\ a.pref))
          IN [i |-> IF hit THEN i - 1 ELSE i, pref |-> nxt,
              pos |-> IF hit THEN <<j>> \o a.pos ELSE a.pos],
   [i |-> m, pref |-> TRUE, pos |-> <<>>], Idx(best)).pos

FuzzyV2(p, k) ==
  IF k.m = 1 THEN FuzzyOne(p, k)
  ELSE LET g == Greedy(p, k)
       IN IF Len(g) < k.m THEN NoMatch
          ELSE LET last == FoldLeft(LAMBDA a, j : IF Eq(k, k.m, j) THEN j ELSE a, 0, Idx(p.n))
                   rows == Rows(p, k, g, last)
                   hm   == rows[k.m].h
                   best == FoldLeft(LAMBDA a, j : IF hm[j] > hm[a] THEN j ELSE a, 1, Idx(last))
               IN [ok |-> TRUE, score |-> hm[best],
                   pos |-> Trace(rows, k.m, best)]

(***************************************************************************
 Exact terms: the first occurrence at a boundary, else the first of those
 with the best bonus.
 ***************************************************************************)
Occurs(k, s) == \A i \in 1..k.m : Eq(k, i, s + i - 1)

Exact(p, k) ==
  LET pick(a, s) ==
        IF (a # 0 /\ p.bon[a] >= BoundaryPts) \/ ~Occurs(k, s) THEN a
        ELSE IF a = 0 \/ p.bon[s] > p.bon[a] THEN s ELSE a
      b == FoldLeft(pick, 0, Idx(p.n - k.m + 1))
  IN IF b = 0 THEN NoMatch ELSE WindowScore(p, k, b, b + k.m - 1)

(***************************************************************************
 Anchored terms.  The spaces the candidate has in excess of the term's own are
 ignored.
 ***************************************************************************)
LeadSpaces(t) ==
  LET a == {j \in 1..Len(t) : t[j] # 32}
  IN IF a = {} THEN Len(t) ELSE (CHOOSE j \in a : \A k \in a : j <= k) - 1

TrailSpaces(t) ==
  LET a == {j \in 1..Len(t) : t[j] # 32}
  IN IF a = {} THEN Len(t) ELSE Len(t) - (CHOOSE j \in a : \A k \in a : j >= k)

At(p, k, s) ==
  IF s >= 1 /\ s + k.m - 1 <= p.n /\ Occurs(k, s)
  THEN WindowScore(p, k, s, s + k.m - 1) ELSE NoMatch

Prefix(p, k, text) ==
  LET l == LeadSpaces(text)
  IN IF l > p.lead THEN NoMatch ELSE At(p, k, p.lead - l + 1)

Suffix(p, k, text) ==
  LET t == TrailSpaces(text)
  IN IF t > p.trail THEN NoMatch ELSE At(p, k, p.n - (p.trail - t) - k.m + 1)

Equal(p, k, text) ==
  LET l == LeadSpaces(text)
      t == TrailSpaces(text)
  IN IF l > p.lead \/ t > p.trail THEN NoMatch
     ELSE IF p.n - (p.lead - l) - (p.trail - t) # k.m THEN NoMatch
     ELSE At(p, k, p.lead - l + 1)

(***************************************************************************
 A term, its negation aside.
 ***************************************************************************)
MatchPositive(cfg, p, term) ==
  LET k == Keys(cfg, p, term.text)
  IN CASE term.kind = "fuzzy"  -> IF cfg.algo = 1 THEN FuzzyV1(p, k) ELSE FuzzyV2(p, k)
       [] term.kind = "exact"  -> Exact(p, k)
       [] term.kind = "prefix" -> Prefix(p, k, term.text)
       [] term.kind = "suffix" -> Suffix(p, k, term.text)
       [] term.kind = "equal"  -> Equal(p, k, term.text)

MatchTerm(cfg, p, term) ==
  LET r == MatchPositive(cfg, p, term)
  IN IF term.inv THEN [ok |-> ~r.ok, score |-> 0, pos |-> <<>>] ELSE r

(***************************************************************************
 A query is a sequence of conditions, each a non-empty sequence of terms.  Of
 each condition the first satisfied term counts.
 ***************************************************************************)
FirstOk(cfg, p, cond) ==
  FoldLeft(LAMBDA a, t : IF a.ok THEN a ELSE MatchTerm(cfg, p, t), NoMatch, cond)

MatchQuery(cfg, q, cand) ==
  LET p == Prep(cfg, cand)
  IN FoldLeft(LAMBDA a, c :
        IF ~a.ok THEN a
        ELSE LET r == FirstOk(cfg, p, c)
             IN IF ~r.ok THEN [ok |-> FALSE, score |-> 0, pos |-> {}]
                ELSE [ok |-> TRUE, score |-> a.score + r.score,
                      pos |-> a.pos \cup {r.pos[x] : x \in 1..Len(r.pos)}],
      [ok |-> TRUE, score |-> 0, pos |-> {}], q)

(* Replies: <<1, score>> for a distance, <<0, 0>> for no match.  An execution
   of the implementation can also end with a panic, <<2, 0>>, or not end at
   all, <<3, 0>>: no action has such replies. *)
NoReply == <<0, 0>>
Reply(r) == IF r.ok THEN <<1, r.score>> ELSE NoReply

(***************************************************************************
 Byte offsets and ranges.  A range is a pair <<start, end>>.
 ***************************************************************************)
Offsets(cand) ==
  IF \A j \in 1..Len(cand) : cand[j] < 128
  THEN TLCEval([j \in 1..Len(cand) + 1 |-> j - 1])
  ELSE FoldLeft(LAMBDA a, c : Append(a, a[Len(a)] + Utf8Len(c)), <<0>>, cand)

(* The indices of the characters covered by the ranges rs. *)
Covered(cand, rs) ==
  LET off == Offsets(cand)
  IN {j \in 1..Len(cand) : \E x \in 1..Len(rs) : rs[x][1] <= off[j] /\ off[j] < rs[x][2]}

WellFormed(cand, rs) ==
  LET off == Offsets(cand)
      bnd == {off[j] : j \in 1..Len(off)}
  IN /\ \A x \in 1..Len(rs) :
          rs[x][1] < rs[x][2] /\ rs[x][1] \in bnd /\ rs[x][2] \in bnd
     \* In order, most of the time.
     /\ \/ \A x \in 1..Len(rs) - 1 : rs[x][2] <= rs[x + 1][1]
        \/ \A x, y \in 1..Len(rs) :
             x < y => rs[x][2] <= rs[y][1] \/ rs[y][2] <= rs[x][1]

(* The ranges, sorted and merged, covering the characters in pos. *)
ToRanges(cand, pos) ==
  LET off == Offsets(cand)
  IN FoldLeft(LAMBDA a, j :
        IF j \notin pos THEN a
        ELSE IF Len(a) > 0 /\ a[Len(a)][2] = off[j]
             THEN [a EXCEPT ![Len(a)] = <<@[1], off[j + 1]>>]
             ELSE Append(a, <<off[j], off[j + 1]>>),
      <<>>, Idx(Len(cand)))
=============================================================================
