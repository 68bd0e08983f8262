------------------------------- MODULE MC_Slab -------------------------------
(***************************************************************************
 FzfV2 on reused scratch memory.  The implementation keeps four slabs which
 outlive a call: the offsets of the term's characters, the cached bonuses, and
 the two matrices, stored row by row and as wide as the part of the candidate
 which is considered.  Here each call starts with slabs of any of the given
 capacities which hold whatever (`Garbage`) was left in them, and goes through
 the steps of the implementation.  It never reads what it didn't write, never
 accesses a cell which isn't there, and replies what Match prescribes.
 ***************************************************************************)
EXTENDS Props

CONSTANTS QAlpha, CAlpha, MinQ, MaxQ, MaxC, Cases, Schemes, Caps, Garbage, MaxCalls

VARIABLES cfg, text, cand,
          idx,      \* the slab of the offsets
          bon,      \* the slab of the bonuses, each cached or not
          sc, co,   \* the slabs of the matrices
          pc, i,    \* what comes next: "ask", "match", "alloc", "row", "back", "done"
          first, width,
          best,     \* the best cell of the last row, and its score
          cell, pref, acc,   \* the traceback
          reply, calls

mvars == <<cfg, text, cand, idx, bon, sc, co, pc, i, first, width, best, cell, pref, acc, reply, calls>>

Fill(n, v) == [x \in 1..n |-> v]

Init ==
  /\ cfg \in [algo : {2}, case : Cases, norm : {FALSE}, scheme : Schemes]
  /\ \E cap \in Caps, g \in Garbage, b \in BOOLEAN :
       /\ idx = Fill(cap, g)
       /\ bon = Fill(cap, [v |-> g, set |-> b])
       /\ sc = Fill(cap, g)
       /\ co = Fill(cap, g)
  /\ text = <<>> /\ cand = <<>>
  /\ pc = "ask" /\ i = 0 /\ first = 0 /\ width = 0 /\ best = [s |-> 0, at |-> 0]
  /\ cell = 0 /\ pref = FALSE /\ acc = <<>> /\ reply = NoMatch /\ calls = 0

P == Prep(cfg, cand)
K == Keys(cfg, P, text)
M == Len(text)
N == Len(cand)

Grown(slab, n, v) == IF n > Len(slab) THEN slab \o Fill(n - Len(slab), v) ELSE slab

Ask ==
  /\ pc = "ask" /\ calls < MaxCalls
  /\ text' \in UNION {[1..m -> QAlpha] : m \in MinQ..MaxQ}
  /\ cand' \in UNION {[1..n -> CAlpha] : n \in 0..MaxC}
  /\ idx' = Grown(idx, Len(text'), 0)
  /\ pc' = "match" /\ i' = 1
  /\ UNCHANGED <<cfg, bon, sc, co, first, width, best, cell, pref, acc, reply, calls>>

Reply_(r) == /\ reply' = r
             /\ pc' = "done"
             /\ calls' = calls + 1

(* Finds the i-th character of the term, from the one after the last found. *)
Match_ ==
  LET k == K
      from == IF i = 1 THEN 0 ELSE idx[i - 1] + 1
      at == {j \in from..(N - 1) : Eq(k, i, j + 1)}
  IN /\ pc = "match"
     /\ IF i > M
        THEN /\ pc' = "alloc"
             /\ first' = idx[1]
             /\ width' = (CHOOSE j \in 0..N - 1 : /\ Eq(k, M, j + 1)
                                                  /\ \A x \in j + 1..N - 1 : ~Eq(k, M, x + 1)) + 1 - idx[1]
             /\ UNCHANGED <<cfg, text, cand, idx, bon, sc, co, i, best, cell, pref, acc, reply, calls>>
        ELSE IF at = {}
        THEN Reply_(NoMatch) /\ UNCHANGED <<cfg, text, cand, idx, bon, sc, co, i, first, width, best, cell, pref, acc>>
        ELSE /\ idx' = [idx EXCEPT ![i] = CHOOSE j \in at : \A x \in at : j <= x]
             /\ i' = i + 1
             /\ UNCHANGED <<cfg, text, cand, bon, sc, co, pc, first, width, best, cell, pref, acc, reply, calls>>

(* Makes room for the candidate's bonuses and for the matrices. *)
Alloc ==
  /\ pc = "alloc"
  /\ idx' = [x \in 1..Len(idx) |-> IF x <= M THEN idx[x] - first ELSE idx[x]]
  /\ bon' = LET b == Grown(bon, width, [v |-> 0, set |-> FALSE])
            IN [x \in 1..Len(b) |-> IF x <= width THEN [b[x] EXCEPT !.set = FALSE] ELSE b[x]]
  /\ sc' = LET s == Grown(sc, width * M, 0) IN [x \in 1..Len(s) |-> IF x <= width * M THEN 0 ELSE s[x]]
  /\ co' = LET s == Grown(co, width * M, 0) IN [x \in 1..Len(s) |-> IF x <= width * M THEN 0 ELSE s[x]]
  /\ pc' = "row" /\ i' = 1
  /\ best' = [s |-> 0, at |-> 0]
  /\ UNCHANGED <<cfg, text, cand, first, width, cell, pref, acc, reply, calls>>

(* The cell of row r (from 1) and column j (from 0). *)
At_(r, j) == (r - 1) * width + j + 1

(* The bonus at column j, which is cached: what the slab has become, and it. *)
Cached(b, p, j) ==
  IF b[j + 1].set THEN [b |-> b, v |-> b[j + 1].v]
  ELSE [b |-> [b EXCEPT ![j + 1] = [v |-> p.bon[first + j + 1], set |-> TRUE]], v |-> p.bon[first + j + 1]]

Decay(s, gap) == Max2(0, s - (IF gap THEN GapExtPts ELSE GapStartPts))

FirstRow(p, k) ==
  FoldLeft(LAMBDA a, x :
     LET j == x - 1 IN
     IF Eq(k, 1, first + j + 1)
     THEN LET b == Cached(a.b, p, j)
              s == MatchPts + 2 * b.v
          IN [a EXCEPT !.s[At_(1, j)] = s, !.c[At_(1, j)] = 1, !.b = b.b, !.gap = FALSE]
     ELSE [a EXCEPT !.s[At_(1, j)] = Decay(a.s[At_(1, j - 1)], a.gap), !.gap = TRUE],
   [s |-> sc, c |-> co, b |-> bon, gap |-> FALSE, best |-> best], Idx(width))

OtherRow(p, k) ==
  FoldLeft(LAMBDA a, x :
     LET j == x - 1
         left == a.s[At_(i, j - 1)]
     IN IF ~Eq(k, i, first + j + 1)
        THEN [a EXCEPT !.s[At_(i, j)] = Decay(left, a.gap), !.gap = TRUE]
        ELSE LET sl  == Decay(left, a.gap)
                 d   == a.s[At_(i - 1, j - 1)] + MatchPts
                 b1  == Cached(a.b, p, j)
                 run == a.c[At_(i - 1, j - 1)] + 1
                 b2  == IF run > 1 THEN Cached(b1.b, p, j + 1 - run) ELSE b1
                 brk == run > 1 /\ b1.v >= BoundaryPts /\ b1.v > b2.v
                 bb  == IF run > 1 /\ ~brk THEN Max2(b1.v, Max2(ConsecutivePts, b2.v)) ELSE b1.v
                 up  == IF d + bb < sl THEN d + b1.v ELSE d + bb
                 s   == Max2(sl, up)
             IN [a EXCEPT !.s[At_(i, j)] = s,
                          !.c[At_(i, j)] = IF d + bb < sl THEN 0 ELSE IF brk THEN 1 ELSE run,
                          !.b = b2.b,
                          !.gap = sl > up,
                          !.best = IF i = M /\ s > a.best.s THEN [s |-> s, at |-> At_(i, j)] ELSE @],
   [s |-> sc, c |-> co, b |-> bon, gap |-> FALSE, best |-> best],
   [x \in 1..(width - idx[i]) |-> idx[i] + x])

Row ==
  LET p == P
      k == K
      r == IF i = 1 THEN FirstRow(p, k) ELSE OtherRow(p, k)
  IN /\ pc = "row"
     /\ sc' = r.s /\ co' = r.c /\ bon' = r.b /\ best' = r.best
     /\ IF i < M THEN i' = i + 1 /\ pc' = "row" /\ UNCHANGED <<cell, pref, acc>>
        ELSE i' = i /\ pc' = "back" /\ cell' = best'.at /\ pref' = TRUE /\ acc' = <<>>
     /\ UNCHANGED <<cfg, text, cand, idx, first, width, reply, calls>>

(* One step of the traceback. *)
Back ==
  LET row == (cell - 1) \div width + 1
      col == (cell - 1) % width
      s   == sc[cell]
      s1  == IF row = 1 \/ col = 0 THEN 0 ELSE sc[cell - width - 1]
      s2  == IF col = 0 THEN 0 ELSE sc[cell - 1]
      dr  == cell + width + 1
      nxt == co[cell] > 1 \/ (dr <= width * M /\ co[dr] > 0)
      hit == s > s1 /\ (s > s2 \/ (s = s2 /\ pref))
      out == IF hit THEN <<first + col + 1>> \o acc ELSE acc
      end == (hit /\ (row = 1 \/ col = 0)) \/ (~hit /\ col = 0)
  IN /\ pc = "back"
     /\ acc' = out
     /\ IF end
        THEN /\ Reply_([ok |-> TRUE, score |-> best.s, pos |-> out])
             /\ UNCHANGED <<cell, pref>>
        ELSE /\ cell' = IF hit THEN cell - width - 1 ELSE cell - 1
             /\ pref' = nxt
             /\ UNCHANGED <<pc, reply, calls>>
     /\ UNCHANGED <<cfg, text, cand, idx, bon, sc, co, i, first, width, best>>

Again ==
  /\ pc = "done" /\ pc' = "ask"
  /\ UNCHANGED <<cfg, text, cand, idx, bon, sc, co, i, first, width, best, cell, pref, acc, reply, calls>>

Next == Ask \/ Match_ \/ Alloc \/ Row \/ Back \/ Again

Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)

(* C06, C08: whatever was in the slabs, the reply is the one of the
   specification, which knows of none. *)
AsPrescribed == pc = "done" => reply = FuzzyV2(P, K)

(* C19: no cell out of the matrices (nor, TLC would say so, out of the slabs)
   is ever looked at, and the call ends. *)
Inside ==
  /\ pc \in {"row", "back"} =>
       /\ width >= M /\ Len(sc) >= width * M /\ Len(co) >= width * M /\ Len(bon) >= width
       /\ \A x \in 1..M : idx[x] >= x - 1 /\ idx[x] < width
  /\ pc = "back" => cell \in 1..(width * M)

Ends == pc = "match" ~> pc = "done"

(* The bonuses which are cached are the candidate's own. *)
Fresh_ == pc \in {"row", "back"} => \A x \in 1..width : bon[x].set => bon[x].v = P.bon[first + x]
=============================================================================
