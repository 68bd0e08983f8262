-------------------------------- MODULE Wrong --------------------------------
(***************************************************************************
 Definitions of Match and Parser which are wrong, each in a way that
 somebody writing them could be.  Put in the place of the right ones they make
 the models fail: what the models say isn't said of anything whatever.
 (`check.py` does so, see REFUTED in models.py.  Nothing else uses them.)
 ***************************************************************************)
EXTENDS Match, Parser

(* The characters of the term are there, in any order. *)
WUnordered(p, k) ==
  IF \A i \in 1..k.m : \E j \in 1..p.n : Eq(k, i, j)
  THEN [ok |-> TRUE, score |-> 1, pos |-> [i \in 1..k.m |-> CHOOSE j \in 1..p.n : Eq(k, i, j)]]
  ELSE NoMatch

(* The query is folded, the candidate isn't. *)
WKeys(cfg, p, text) ==
  LET sens == IsSensitive(cfg, text)
      m == Len(text)
  IN [m |-> m,
      pk |-> [i \in 1..m |-> IF sens THEN text[i] ELSE Fold(text[i])],
      ck |-> [i \in 1..m |-> IF InNormRange(text[i]) THEN p.raw ELSE p.nrm]]

(* The alignment is taken to be contiguous. *)
WTrace(rows, m, best) == [i \in 1..m |-> best - m + i]

(* Nothing goes back from the end of the first match. *)
WFuzzyV1(p, k) ==
  LET g == Greedy(p, k)
  IN IF Len(g) < k.m THEN NoMatch ELSE WindowScore(p, k, g[1], g[k.m])

(* A gap costs the same whatever its length. *)
WRowN(p, k, i, prev, first, upto) ==
  FoldLeft(LAMBDA a, j :
     LET s2 == Max2(0, a.h[j - 1] - (IF a.gap THEN 0 ELSE GapStartPts))
     IN IF ~Eq(k, i, j)
        THEN [h |-> Append(a.h, s2), c |-> Append(a.c, 0), gap |-> TRUE]
        ELSE LET s1 == prev.h[j - 1] + MatchPts + p.bon[j]
             IN [h |-> Append(a.h, Max2(s1, s2)),
                 c |-> Append(a.c, IF s1 < s2 THEN 0 ELSE prev.c[j - 1] + 1),
                 gap |-> s1 < s2],
   [h |-> Zeros(first - 1), c |-> Zeros(first - 1), gap |-> FALSE], From(first, upto))

(* The first occurrence, whatever its bonus. *)
WExact(p, k) ==
  LET o == {s \in 1..(p.n - k.m + 1) : Occurs(k, s)}
  IN IF o = {} THEN NoMatch
     ELSE LET s == CHOOSE x \in o : \A y \in o : x <= y IN WindowScore(p, k, s, s + k.m - 1)

(* All the candidate's spaces are skipped. *)
WLeadSpaces(t) == 0

(* A negated term is satisfied anyway. *)
WMatchTerm(cfg, p, term) ==
  IF term.inv THEN [ok |-> TRUE, score |-> 0, pos |-> <<>>] ELSE MatchPositive(cfg, p, term)

(* An instance of the second metric forgets an exact term's bonus. *)
WMatchPositive(cfg, p, term) ==
  LET k == Keys(cfg, p, term.text)
      e == Exact(p, k)
  IN CASE term.kind = "fuzzy"  -> IF cfg.algo = 1 THEN FuzzyV1(p, k) ELSE FuzzyV2(p, k)
       [] term.kind = "exact"  -> IF cfg.algo = 2 /\ e.ok THEN [e EXCEPT !.score = MatchPts * k.m] ELSE e
       [] term.kind = "prefix" -> Prefix(p, k, term.text)
       [] term.kind = "suffix" -> Suffix(p, k, term.text)
       [] term.kind = "equal"  -> Equal(p, k, term.text)

(* Of a condition's terms the last one which is satisfied counts. *)
WFirstOk(cfg, p, cond) ==
  FoldLeft(LAMBDA a, t : LET r == MatchTerm(cfg, p, t) IN IF r.ok THEN r ELSE a, NoMatch, cond)

(* Nothing matches a query without conditions, and the last condition's score
   is the query's. *)
WMatchQuery(cfg, q, cand) ==
  LET p == Prep(cfg, cand)
      r == [x \in 1..Len(q) |-> FirstOk(cfg, p, q[x])]
  IN IF q = <<>> \/ \E x \in 1..Len(q) : ~r[x].ok THEN [ok |-> FALSE, score |-> 0, pos |-> {}]
     ELSE [ok |-> TRUE, score |-> r[Len(q)].score,
           pos |-> UNION {{r[x].pos[y] : y \in 1..Len(r[x].pos)} : x \in 1..Len(q)}]

(* Characters are bytes. *)
WOffsets(cand) == [j \in 1..Len(cand) + 1 |-> j - 1]

(* Any number of fillers is enough. *)
WLongEnough(qry) == 0

(* A single range from the first to the last matched character. *)
WToRanges(cand, pos) ==
  LET off == Offsets(cand)
  IN IF pos = {} THEN <<>>
     ELSE << <<off[CHOOSE x \in pos : \A y \in pos : x <= y], off[(CHOOSE x \in pos : \A y \in pos : x >= y) + 1]>> >>

(* Any space separates. *)
WSeparates(s, i) == s[i] = Space

(* The query is trimmed. *)
WParseRaw(s) ==
  LET t == {i \in 1..Len(s) : s[i] # Space}
  IN IF t = {} THEN <<>>
     ELSE << << [kind |-> "fuzzy", inv |-> FALSE,
                 text |-> SubSeq(s, CHOOSE x \in t : \A y \in t : x <= y, CHOOSE x \in t : \A y \in t : x >= y)] >> >>

(* The text of a term can be empty. *)
WParseExtended(s) ==
  FoldLeft(LAMBDA a, w : Append(a, <<Term(w)>>), <<>>, Words(s))

(* Sensitive as soon as there is a letter which isn't lowercase. *)
WIsSensitive(cfg, text) ==
  cfg.case = "sensitive" \/ (cfg.case = "smart" /\ \E i \in 1..Len(text) : Fold(text[i]) # text[i] /\ text[i] > 127)

=============================================================================
