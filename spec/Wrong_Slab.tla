----------------------------- MODULE Wrong_Slab -----------------------------
(* MC_Slab gone wrong, see Wrong. *)
EXTENDS MC_Slab

(* The bonuses cached for another candidate are kept. *)
WAlloc ==
  /\ pc = "alloc"
  /\ idx' = [x \in 1..Len(idx) |-> IF x <= M THEN idx[x] - first ELSE idx[x]]
  /\ bon' = Grown(bon, width, [v |-> 0, set |-> FALSE])
  /\ sc' = LET s == Grown(sc, width * M, 0) IN [x \in 1..Len(s) |-> IF x <= width * M THEN 0 ELSE s[x]]
  /\ co' = LET s == Grown(co, width * M, 0) IN [x \in 1..Len(s) |-> IF x <= width * M THEN 0 ELSE s[x]]
  /\ pc' = "row" /\ i' = 1
  /\ best' = [s |-> 0, at |-> 0]
  /\ UNCHANGED <<cfg, text, cand, first, width, cell, pref, acc, reply, calls>>

(* The runs of another candidate are. *)
WRuns ==
  /\ pc = "alloc"
  /\ idx' = [x \in 1..Len(idx) |-> IF x <= M THEN idx[x] - first ELSE idx[x]]
  /\ bon' = LET b == Grown(bon, width, [v |-> 0, set |-> FALSE])
            IN [x \in 1..Len(b) |-> IF x <= width THEN [b[x] EXCEPT !.set = FALSE] ELSE b[x]]
  /\ sc' = LET s == Grown(sc, width * M, 0) IN [x \in 1..Len(s) |-> IF x <= width * M THEN 0 ELSE s[x]]
  /\ co' = Grown(co, width * M, 0)
  /\ pc' = "row" /\ i' = 1
  /\ best' = [s |-> 0, at |-> 0]
  /\ UNCHANGED <<cfg, text, cand, first, width, cell, pref, acc, reply, calls>>

(* Slabs grow once. *)
WGrown(slab, n, v) == IF slab = <<>> THEN Fill(n, v) ELSE slab
=============================================================================
