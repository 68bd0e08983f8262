------------------------------- MODULE Props -------------------------------
(***************************************************************************
 The properties (see properties.jsonl), each as what it allows to be observed
 of a call.  A call is a record

    op      "d" (distance) or "r" (distance and ranges)
    cfg     the settings of the metric it is made on
    query   the query, as a sequence of conditions
    cand    the candidate
    reply   what it replied: <<1, score>>, or <<0, 0>>
    before  the buffer of ranges before the call
    after   and after it

 Some properties relate a call to earlier ones: `seen` is then what was
 observed before, a sequence of calls.
 ***************************************************************************)
EXTENDS Match, FiniteSets

Matched(c) == c.reply[1] = 1

(* The ranges a call appended. *)
TailOf(c) == SubSeq(c.after, Len(c.before) + 1, Len(c.after))
CoveredBy(c) == Covered(c.cand, TailOf(c))

Single(c) == Len(c.query) = 1 /\ Len(c.query[1]) = 1
TheTerm(c) == c.query[1][1]
SingleFuzzy(c) == Single(c) /\ TheTerm(c).kind = "fuzzy" /\ ~TheTerm(c).inv

(***************************************************************************
 The whole behaviour: the reply is the one of the specification, and the
 characters covered by the appended ranges are the ones it says.
 ***************************************************************************)
Conforms(c) ==
  LET r == MatchQuery(c.cfg, c.query, c.cand)
  IN /\ c.reply = Reply(r)
     /\ c.op = "r" => CoveredBy(c) = r.pos

(* C01 *)
FuzzyIsSubsequence(c) ==
  SingleFuzzy(c) =>
    LET p == Prep(c.cfg, c.cand)
        k == Keys(c.cfg, p, TheTerm(c).text)
    IN Matched(c) <=> Len(Greedy(p, k)) = k.m

(* What the ranges cover spells the term, character by character. *)
Spells(c, t) ==
  LET p  == Prep(c.cfg, c.cand)
      k  == Keys(c.cfg, p, t.text)
      cv == CoveredBy(c)
      ps == SetToSortSeq(cv, <)
  IN /\ Len(ps) = k.m
     /\ \A x \in 1..k.m : Eq(k, x, ps[x])

(* C02 *)
RangesSpell(c) ==
  (SingleFuzzy(c) /\ Matched(c) /\ c.op = "r") => Spells(c, TheTerm(c))

(* C03 *)
RangesWellFormed(c) == c.op = "r" => WellFormed(c.cand, TailOf(c))

(* C04 *)
BufferAppended(c) ==
  IF c.op = "d" \/ ~Matched(c) THEN c.after = c.before
  ELSE /\ Len(c.after) >= Len(c.before)
       /\ SubSeq(c.after, 1, Len(c.before)) = c.before

SameCall(a, b) == a.cfg = b.cfg /\ a.query = b.query /\ a.cand = b.cand

(* C05 *)
SameAnswers(c, seen) ==
  \A x \in 1..Len(seen) : SameCall(seen[x], c) => seen[x].reply = c.reply

(* C06 *)
SameResults(c, seen) ==
  \A x \in 1..Len(seen) :
    SameCall(seen[x], c) =>
      /\ seen[x].reply = c.reply
      /\ (seen[x].op = "r" /\ c.op = "r") => CoveredBy(seen[x]) = CoveredBy(c)

(* What was observed of a term alone, on the same candidate under the same
   settings: a sequence of at most one call. *)
Alone(c, t, seen) ==
  SelectSeq(seen, LAMBDA s : /\ s.query = << <<t>> >>
                             /\ s.cfg = c.cfg /\ s.cand = c.cand
                             /\ s.op = c.op)

Positive(t) == [t EXCEPT !.inv = FALSE]

(* What a term does according to what was observed of terms alone: a result
   as in Match, with known = FALSE if nothing was. *)
Unknown == [known |-> FALSE, ok |-> FALSE, score |-> 0, pos |-> {}]

AsAlone(c, t, seen) ==
  LET a == Alone(c, t, seen)
  IN IF a = <<>> THEN Unknown
     ELSE [known |-> TRUE, ok |-> Matched(a[1]), score |-> a[1].reply[2], pos |-> CoveredBy(a[1])]

(* The same, a negated term being judged by its positive form. *)
AsNegation(c, t, seen) ==
  IF ~t.inv THEN AsAlone(c, t, seen)
  ELSE LET a == Alone(c, Positive(t), seen)
       IN IF a = <<>> THEN Unknown
          ELSE [known |-> TRUE, ok |-> ~Matched(a[1]), score |-> 0, pos |-> {}]

(* Terms combined: an AND of ORs, of each condition the first satisfied one
   counting. *)
Combine(qry, what(_)) ==
  FoldLeft(LAMBDA a, cond :
     LET r == FoldLeft(LAMBDA x, t :
                 IF ~x.known \/ x.ok THEN x ELSE what(t),
                 [known |-> TRUE, ok |-> FALSE, score |-> 0, pos |-> {}], cond)
     IN IF ~a.known \/ (a.known /\ ~a.ok) THEN a
        ELSE IF ~r.known THEN r
        ELSE IF ~r.ok THEN [known |-> TRUE, ok |-> FALSE, score |-> 0, pos |-> {}]
        ELSE [known |-> TRUE, ok |-> TRUE, score |-> a.score + r.score, pos |-> a.pos \cup r.pos],
   [known |-> TRUE, ok |-> TRUE, score |-> 0, pos |-> {}], qry)

(* C11 *)
HasNegation(c) == \E x \in 1..Len(c.query) : \E y \in 1..Len(c.query[x]) : c.query[x][y].inv

NegationHolds(c, seen) ==
  HasNegation(c) =>
    /\ (Single(c) /\ Matched(c)) =>
          /\ c.reply[2] = 0
          /\ c.op = "r" => TailOf(c) = <<>>
    /\ LET w == Combine(c.query, LAMBDA t : AsNegation(c, t, seen))
       IN w.known => /\ c.reply = Reply(w)
                     /\ c.op = "r" => CoveredBy(c) = w.pos

(* C12 *)
Composes(c, seen) ==
  ~Single(c) =>
    LET w == Combine(c.query, LAMBDA t : AsAlone(c, t, seen))
    IN w.known => c.reply = Reply(w)

(* C22 *)
UnionOfTerms(c, seen) ==
  (c.op = "r" /\ Matched(c)) =>
    IF Single(c)
    THEN ~TheTerm(c).inv => Spells(c, TheTerm(c))
    ELSE LET w == Combine(c.query, LAMBDA t : AsAlone(c, t, seen))
         IN (w.known /\ w.ok) => CoveredBy(c) = w.pos

(* C20 *)
EmptyMatchesAll(c) ==
  c.query = <<>> => c.reply = <<1, 0>> /\ c.after = c.before

(* C21: whether the candidate of b is that of a but for a character which is
   irrelevant to the query, of the same class. *)
QueryChars(qry) ==
  UNION { UNION { {qry[x][y].text[z] : z \in 1..Len(qry[x][y].text)} :
                    y \in 1..Len(qry[x]) } : x \in 1..Len(qry) }

Irrelevant(cfg, qry, ch) ==
  /\ ch # 32
  /\ \A q \in QueryChars(qry) : ~CharEq(q, ch, FALSE, cfg.norm) /\ ~CharEq(q, ch, FALSE, FALSE)

Swapped(a, b) ==
  /\ a.cfg = b.cfg /\ a.query = b.query /\ Len(a.cand) = Len(b.cand)
  /\ LET df == {j \in 1..Len(a.cand) : a.cand[j] # b.cand[j]}
     IN \A j \in df :
          /\ ClassOf(a.cand[j], a.cfg.scheme) = ClassOf(b.cand[j], a.cfg.scheme)
          /\ Irrelevant(a.cfg, a.query, a.cand[j])
          /\ Irrelevant(a.cfg, a.query, b.cand[j])

RepresentationFree(c, seen) ==
  \A x \in 1..Len(seen) :
    Swapped(seen[x], c) =>
      /\ seen[x].reply = c.reply
      /\ (seen[x].op = "r" /\ c.op = "r") => CoveredBy(seen[x]) = CoveredBy(c)

(* C24: a and b were asked the same, of a metric each. *)
OtherMetric(a, b) == /\ a.cfg = [b.cfg EXCEPT !.algo = 3 - @]
                     /\ a.query = b.query /\ a.cand = b.cand

NoFuzzy(qry) == \A x \in 1..Len(qry) : \A y \in 1..Len(qry[x]) : qry[x][y].kind # "fuzzy" \/ qry[x][y].inv

MetricsAgree(c, seen) ==
  \A x \in 1..Len(seen) :
    OtherMetric(seen[x], c) =>
      /\ Matched(seen[x]) = Matched(c)
      /\ NoFuzzy(c.query) =>
           /\ seen[x].reply = c.reply
           /\ (seen[x].op = "r" /\ c.op = "r") => CoveredBy(seen[x]) = CoveredBy(c)

(* C18: comparing the distances of scores x and y, and sorting. *)
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0

Median(x, y, z) ==
  LET lo == IF x <= y THEN x ELSE y
  IN IF z <= lo THEN lo ELSE IF z >= Max2(x, y) THEN Max2(x, y) ELSE z

OrderHolds(e) ==
  LET o == Sign(e.y - e.x)
  IN /\ e.c = o /\ e.p = o
     /\ e.e = (o = 0) /\ e.ne = (o # 0) /\ e.l = (o = -1) /\ e.g = (o = 1)
     /\ e.le = (o # 1) /\ e.ge = (o # -1)
     /\ e.mn = Max2(e.x, e.y)
     /\ e.mx = (IF e.x <= e.y THEN e.x ELSE e.y)
     /\ e.cl = Median(e.x, e.y, e.d)

(***************************************************************************
 C23.  The settings an instance's debug output shows are its settings.
 ***************************************************************************)
Shows(e, c) ==
  /\ e.c = c.case
  /\ e.n = (IF c.norm THEN "on" ELSE "off")
  /\ e.h = c.scheme

Occurrences(s, v) == Cardinality({k \in 1..Len(s) : s[k] = v})

SortHolds(e) ==
  /\ Len(e.x) = Len(e.y)
  /\ \A k \in 1..Len(e.y) - 1 : e.y[k] >= e.y[k + 1]
  /\ \A k \in 1..Len(e.x) : Occurrences(e.x, e.x[k]) = Occurrences(e.y, e.x[k])
  /\ e.d = 0
=============================================================================
