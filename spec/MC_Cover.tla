------------------------------ MODULE MC_Cover ------------------------------
(***************************************************************************
 Behaviours which cover the specification of matching: candidates grow one
 character at a time, and what is remembered of one, its last character aside,
 is which of the specification's cases computing its match takes, and with
 what.  For the first candidate, i.e. a shortest one, to take each set of them
 a test is generated.
 ***************************************************************************)
EXTENDS Session, Props, Json

CONSTANTS Algos, Cases, Norms, Schemes, Kinds, QAlpha, CAlpha, MinQ, MaxQ, MaxC, Plan

VARIABLES cfg, term, cand, sig

mvars == <<cfg, term, cand, sig, insts, query, buf, last>>

Min2(a, b) == IF a <= b THEN a ELSE b
Cmp(a, b) == IF a < b THEN 0 ELSE IF a = b THEN 1 ELSE 2
Bit(b) == IF b THEN 1 ELSE 0

(***************************************************************************
 The cases taken by WindowScore within the window r.pos spans.
 ***************************************************************************)
WindowTags(p, k, r) ==
  LET n == Len(r.pos)
      step(a, x) ==
        LET j    == r.pos[x]
            gap  == IF x = 1 THEN 0 ELSE j - r.pos[x - 1] - 1
            run  == x > 1 /\ gap = 0
            b    == p.bon[j]
            brk  == run /\ b >= BoundaryPts /\ b > a.fb
            fb   == IF ~run \/ brk THEN b ELSE a.fb
            how  == IF x = 1 THEN 0 ELSE IF ~run THEN 1 ELSE IF brk THEN 2
                    ELSE IF fb >= ConsecutivePts /\ fb > b THEN 3
                    ELSE IF b >= ConsecutivePts THEN 4 ELSE 5
        IN [fb |-> fb, len |-> IF run THEN Min2(a.len + 1, 4) ELSE 1,
            tags |-> a.tags \cup {1000 + 100 * how + 10 * Min2(gap, 3) + (IF run THEN Min2(a.len, 3) ELSE 0)}]
  IN FoldLeft(step, [fb |-> 0, len |-> 0, tags |-> {}], Idx(n)).tags

(***************************************************************************
 V1: whether the start moves, and the matched characters with it.
 ***************************************************************************)
TagsV1(p, k) ==
  LET g == Greedy(p, k)
      r == FuzzyV1(p, k)
  IN IF ~r.ok THEN {2000 + Len(g)}
     ELSE WindowTags(p, k, r)
          \cup {2100 + 10 * Min2(r.pos[1] - g[1], 3) + Min2(p.n - g[k.m], 2),
                2200 + Cardinality({x \in 1..k.m : r.pos[x] # g[x]})}

(***************************************************************************
 V2: the cells of the matrix, and the way back.
 ***************************************************************************)
CellTags(p, k, i, rows, first, upto) ==
  LET h   == rows[i].h
      cls == IF i = 1 THEN 0 ELSE IF i = k.m THEN 1 ELSE 2
      step(a, j) ==
        LET raw == h[j - 1] - (IF a.gap THEN GapExtPts ELSE GapStartPts)
            s2  == IF j = 1 THEN 0 ELSE Max2(0, raw)
            cl  == j > 1 /\ raw < 0 /\ h[j - 1] > 0
        IN IF ~Eq(k, i, j)
           THEN [gap |-> TRUE, tags |-> a.tags \cup {10000 + 1000 * cls + 2 * Bit(a.gap) + Bit(cl)}]
           ELSE IF i = 1
           THEN [gap |-> FALSE, tags |-> a.tags \cup {20000 + 100 * Cmp(h[j], s2) + 2 * Bit(a.gap) + Bit(cl)}]
           ELSE LET b   == p.bon[j]
                    run == rows[i - 1].c[j - 1] + 1
                    fb  == p.bon[j - run + 1]
                    brk == run > 1 /\ b >= BoundaryPts /\ b > fb
                    bb  == IF run > 1 /\ ~brk THEN Max2(b, Max2(ConsecutivePts, fb)) ELSE b
                    d   == rows[i - 1].h[j - 1] + MatchPts
                    cut == d + bb < s2
                    s1  == IF cut THEN d + b ELSE d + bb
                    how == IF run = 1 THEN 0 ELSE IF brk THEN 1 ELSE IF cut THEN 2
                           ELSE IF bb > b /\ bb > ConsecutivePts THEN 3
                           ELSE IF bb > b THEN 4 ELSE 5
                IN [gap |-> s1 < s2,
                    tags |-> a.tags \cup {30000 + 1000 * cls + 100 * how + 10 * Cmp(s1, s2) + 2 * Bit(a.gap) + Bit(cut)}]
  IN FoldLeft(step, [gap |-> FALSE, tags |-> {}], From(first, upto)).tags

BackTags(rows, m, best) ==
  FoldLeft(LAMBDA a, x :
     IF a.i = 0 THEN a
     ELSE LET i   == a.i
              j   == best - x + 1
              s   == rows[i].h[j]
              s1  == IF i > 1 /\ j > 1 THEN rows[i - 1].h[j - 1] ELSE 0
              s2  == IF j > 1 THEN rows[i].h[j - 1] ELSE 0
              n1  == rows[i].c[j] > 1
              n2  == i < m /\ j < Len(rows[i + 1].c) /\ rows[i + 1].c[j + 1] > 0
              hit == s > s1 /\ (s > s2 \/ (s = s2 /\ a.pref))
          IN [i |-> IF hit THEN i - 1 ELSE i, pref |-> n1 \/ n2,
              tags |-> a.tags \cup
                {40000 + 1000 * Bit(i = 1) + 100 * Cmp(s, s1) + 10 * Cmp(s, s2) + 5 * Bit(hit)
                 + (IF s = s2 THEN 1 + Bit(a.pref) ELSE 0) + 2000 * Bit(n1) + 4000 * Bit(n2)}],
   [i |-> m, pref |-> TRUE, tags |-> {}], Idx(best)).tags

TagsV2(p, k) ==
  LET g == Greedy(p, k)
  IN IF Len(g) < k.m THEN {2000 + Len(g)}
     ELSE IF k.m = 1
     THEN LET r == FuzzyOne(p, k)
          IN {3000 + 100 * Min2(Cardinality({j \in 1..p.n : Eq(k, 1, j)}), 3) + 10 * Min2(r.pos[1] - g[1], 2) + Min2(r.score - 16, 9)}
     ELSE LET last_ == FoldLeft(LAMBDA a, j : IF Eq(k, k.m, j) THEN j ELSE a, 0, Idx(p.n))
              rows  == Rows(p, k, g, last_)
              hm    == rows[k.m].h
              best  == FoldLeft(LAMBDA a, j : IF hm[j] > hm[a] THEN j ELSE a, 1, Idx(last_))
              ties  == Cardinality({j \in 1..last_ : hm[j] = hm[best]})
              pos   == Trace(rows, k.m, best)
          IN UNION {CellTags(p, k, i, rows, g[i], last_ - k.m + i) : i \in 1..k.m}
             \cup BackTags(rows, k.m, best)
             \cup {4000 + 100 * Min2(ties, 3) + 10 * Min2(last_ - best, 2) + Min2(best - g[k.m], 3),
                   4500 + Cardinality({x \in 1..k.m : pos[x] # g[x]})}

(***************************************************************************
 Exact terms: the occurrences, which one it is, and what almost is one.
 ***************************************************************************)
TagsExact(p, k) ==
  LET r    == Exact(p, k)
      occ  == {s \in 1..p.n - k.m + 1 : Occurs(k, s)}
      part == {s \in 1..p.n : /\ k.m > 1 /\ s + k.m - 2 <= p.n
                              /\ \A i \in 1..k.m - 1 : Eq(k, i, s + i - 1)
                              /\ (s + k.m - 1 > p.n \/ ~Eq(k, k.m, s + k.m - 1))}
      tail == {5900 + Bit(p.n \in part)}
  IN IF ~r.ok THEN {5000 + Min2(Cardinality(part), 3)} \cup tail
     ELSE LET at == r.pos[1]
              before == {s \in occ : s < at}
              after  == {s \in occ : s > at}
          IN WindowTags(p, k, r) \cup tail
             \cup {5100 + 10 * Min2(Cardinality(before), 2) + Min2(Cardinality(after), 2),
                   5200 + Min2(p.bon[at], 10),
                   5300 + 10 * Bit(\E s \in before : at - s < k.m) + Bit(\E s \in after : p.bon[s] > p.bon[at]),
                   5400 + Bit(\E s \in after : p.bon[s] = p.bon[at]),
                   5500 + 10 * Bit(\E s \in part : s < at /\ s + k.m > at) + Bit(\E s \in part : s < at)}

(***************************************************************************
 Anchored terms: the spaces at both ends, and how far the match goes.
 ***************************************************************************)
TagsAnchored(p, k, t) ==
  LET r == CASE t.kind = "prefix" -> Prefix(p, k, t.text)
             [] t.kind = "suffix" -> Suffix(p, k, t.text)
             [] OTHER -> Equal(p, k, t.text)
      l == p.lead - LeadSpaces(t.text)
      e == p.trail - TrailSpaces(t.text)
      s == Max2(l, 0) + 1
      good == FoldLeft(LAMBDA a, i : IF a = i - 1 /\ s + i - 1 <= p.n /\ Eq(k, i, s + i - 1) THEN i ELSE a, 0, Idx(k.m))
  IN (IF r.ok THEN WindowTags(p, k, r) ELSE {})
     \cup {6000 + 500 * Bit(r.ok) + 100 * Cmp(l, 0) + 10 * Cmp(e, 0) + Min2(good, 5),
           6700 + 10 * Min2(Max2(l, 0), 2) + Min2(Max2(e, 0), 2),
           6800 + Cmp(p.n - Max2(l, 0) - Max2(e, 0), k.m)}

Sig(c, t, cd) ==
  LET p == Prep(c, cd)
      k == Keys(c, p, t.text)
  IN TLCEval(
     CASE t.kind = "fuzzy" -> IF c.algo = 1 THEN TagsV1(p, k) ELSE TagsV2(p, k)
       [] t.kind = "exact" -> TagsExact(p, k)
       [] OTHER -> TagsAnchored(p, k, t))

Terms == [kind : Kinds, inv : {FALSE}, text : UNION {[1..m -> QAlpha] : m \in MinQ..MaxQ}]

Init ==
  /\ InitSession({1}, {1})
  /\ cfg \in [algo : Algos, case : Cases, norm : Norms, scheme : Schemes]
  /\ term \in Terms
  /\ cand = <<>> /\ sig = {}

Next ==
  /\ Len(cand) < MaxC
  /\ \E c \in CAlpha : cand' = Append(cand, c)
  /\ sig' = Sig(cfg, term, cand')
  /\ UNCHANGED <<cfg, term, insts, query, buf, last>>

Spec == Init /\ [][Next]_mvars

(* A candidate is its last character and the cases it takes. *)
View == <<cfg, term, IF cand = <<>> THEN 0 ELSE cand[Len(cand)], sig>>

(***************************************************************************
 The tests: the term is asked for in the candidate, and, for the properties
 which relate calls,
   "dx"    without ranges, and with
   "both"  of both metrics
   "neg"   and so is its opposite
   "swap"  and so it is when characters the term has nothing to do with are
           replaced by others of the same class, one by one and altogether
 ***************************************************************************)
Cfg(s, algo) == [o |-> "cfg", s |-> s, a |-> algo, c |-> cfg.case, n |-> cfg.norm, h |-> cfg.scheme]
Parsed(t) == [o |-> "parse", p |-> 1, q |-> Written(<< <<t>> >>)]
Ask(s, cd) == [o |-> "x", s |-> s, p |-> 1, c |-> cd]

Swaps == (120 :> 223) @@ (88 :> 209) @@ (55 :> 189) @@ (95 :> 8364) @@ (45 :> 128512)

Swappable(c) ==
  /\ c \in DOMAIN Swaps
  /\ \A ch \in {c, Swaps[c]} : Irrelevant(cfg, << <<term>> >>, ch)
  /\ ClassOf(c, cfg.scheme) = ClassOf(Swaps[c], cfg.scheme)

Swapped_(J) == [j \in 1..Len(cand) |-> IF j \in J THEN Swaps[cand[j]] ELSE cand[j]]

Calls ==
  CASE Plan = "dx"   -> <<[Ask(1, cand) EXCEPT !.o = "d"], Ask(1, cand), [Ask(1, cand) EXCEPT !.o = "d"]>>
    [] Plan = "both" -> <<Cfg(2, 3 - cfg.algo), Ask(1, cand), Ask(2, cand)>>
    [] Plan = "neg"  -> <<Ask(1, cand), Parsed([term EXCEPT !.inv = TRUE]), Ask(1, cand)>>
    [] Plan = "swap" -> LET J == {j \in 1..Len(cand) : Swappable(cand[j])}
                            js == SetToSortSeq(J, <)
                        IN <<Ask(1, cand)>> \o [x \in 1..Len(js) |-> Ask(1, Swapped_({js[x]}))]
                           \o <<Ask(1, Swapped_(J))>>
    [] OTHER -> <<Ask(1, cand)>>

(* TLC evaluates invariants once for every state it hasn't seen: that is when
   the tests are printed. *)
Covering ==
  cand = <<>> \/ PrintT("BEHAVIOUR " \o ToJson(<<Cfg(1, cfg.algo), Parsed(term)>> \o Calls))
=============================================================================
