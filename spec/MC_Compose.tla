----------------------------- MODULE MC_Compose -----------------------------
(***************************************************************************
 Queries of several terms.  A call goes through the conditions of the query,
 and through the alternatives of each, as the implementation does: inserting
 the matched characters in the buffer of ranges, and taking them away should a
 condition fail.  What it ends up with is what Match prescribes of the whole
 query, and what is expected of it as a formula over its terms.
 ***************************************************************************)
EXTENDS Props

CONSTANTS Kinds, Texts, CAlpha, MaxC, MaxConds, MaxAlts, Cases, Before

VARIABLES cfg, qry, cand,
          ci, ti,           \* the condition and the alternative which come next
          total, cov, buf,  \* the score, the characters matched, the buffer
          out               \* "running", "matched" or "rejected"

mvars == <<cfg, qry, cand, ci, ti, total, cov, buf, out>>

BeforeBuf == <<<<7, 9>>, <<2, 3>>>>
NoBuf == <<>>

(* "a" and "Ba"; "ab" and "b". *)
TextsA == {<<97>>, <<66, 97>>}
TextsB == {<<97, 98>>, <<98>>}

Terms == [kind : Kinds, inv : BOOLEAN, text : Texts]

Conds == UNION {[1..n -> Terms] : n \in 1..MaxAlts}

Init ==
  /\ cfg \in [algo : {1, 2}, case : Cases, norm : {FALSE}, scheme : {"default"}]
  /\ qry \in UNION {[1..n -> Conds] : n \in 0..MaxConds}
  /\ cand \in UNION {[1..n -> CAlpha] : n \in 0..MaxC}
  /\ ci = 1 /\ ti = 1 /\ total = 0 /\ cov = {} /\ buf = Before /\ out = "running"

P == Prep(cfg, cand)

(* The ranges the implementation is told of are those of the term; where they
   are merged is up to MC_Ranges. *)
Inserted(c) == Before \o ToRanges(cand, c)

Satisfied ==
  LET r == MatchTerm(cfg, P, qry[ci][ti])
  IN /\ out = "running" /\ ci <= Len(qry) /\ ti <= Len(qry[ci])
     /\ r.ok
     /\ total' = total + r.score
     /\ cov' = cov \cup {r.pos[x] : x \in 1..Len(r.pos)}
     /\ buf' = Inserted(cov')
     /\ ci' = ci + 1 /\ ti' = 1
     /\ UNCHANGED <<cfg, qry, cand, out>>

NotSatisfied ==
  /\ out = "running" /\ ci <= Len(qry) /\ ti <= Len(qry[ci])
  /\ ~MatchTerm(cfg, P, qry[ci][ti]).ok
  /\ ti' = ti + 1
  /\ UNCHANGED <<cfg, qry, cand, ci, total, cov, buf, out>>

Fails ==
  /\ out = "running" /\ ci <= Len(qry) /\ ti > Len(qry[ci])
  /\ out' = "rejected" /\ buf' = Before
  /\ UNCHANGED <<cfg, qry, cand, ci, ti, total, cov>>

Succeeds ==
  /\ out = "running" /\ ci > Len(qry)
  /\ out' = "matched"
  /\ UNCHANGED <<cfg, qry, cand, ci, ti, total, cov, buf>>

Next == Satisfied \/ NotSatisfied \/ Fails \/ Succeeds

Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)

Whole == MatchQuery(cfg, qry, cand)

(* C12, C22 *)
AsWhole ==
  /\ out = "matched" => Whole = [ok |-> TRUE, score |-> total, pos |-> cov]
  /\ out = "rejected" => ~Whole.ok

(* C03 *)
Shape == /\ SubSeq(buf, 1, Len(Before)) = Before
         /\ LET own == SubSeq(buf, Len(Before) + 1, Len(buf))
            IN out = "rejected" \/ (WellFormed(cand, own) /\ Covered(cand, own) = cov)

(* C04 *)
Untouched == out = "rejected" => buf = Before

(* C12, as a formula. *)
Ok(t) == MatchTerm(cfg, P, t).ok

Formula ==
  out # "running" =>
    /\ (out = "matched") = \A x \in 1..Len(qry) : \E y \in 1..Len(qry[x]) : Ok(qry[x][y])
    \* The order of the conditions doesn't matter,
    /\ Whole = MatchQuery(cfg, Reverse(qry), cand)
    \* nor do the alternatives after the first satisfied one.
    /\ \A x \in 1..Len(qry) : Ok(qry[x][1]) =>
          Whole = MatchQuery(cfg, [qry EXCEPT ![x] = <<@[1]>>], cand)

(* C11 *)
Negation ==
  \A x \in 1..Len(qry) : \A y \in 1..Len(qry[x]) :
    LET t == qry[x][y]
        r == MatchTerm(cfg, P, t)
        o == MatchTerm(cfg, P, [t EXCEPT !.inv = ~@])
    IN /\ r.ok = ~o.ok
       /\ t.inv => r.score = 0 /\ r.pos = <<>>

(* C20 *)
EmptyQuery == qry = <<>> => Whole = [ok |-> TRUE, score |-> 0, pos |-> {}]

(* C15: each term has its own sensitivity. *)
SmartCase ==
  cfg.case = "smart" =>
    \A x \in 1..Len(qry) : \A y \in 1..Len(qry[x]) :
      LET t == qry[x][y]
          as == IF \E z \in 1..Len(t.text) : IsUpper(t.text[z]) THEN "sensitive" ELSE "insensitive"
      IN MatchTerm(cfg, P, t) = MatchTerm([cfg EXCEPT !.case = as], Prep([cfg EXCEPT !.case = as], cand), t)

(* C24 *)
Agree ==
  LET other == [cfg EXCEPT !.algo = 3 - @]
  IN /\ Whole.ok = MatchQuery(other, qry, cand).ok
     /\ NoFuzzy(qry) => Whole = MatchQuery(other, qry, cand)

(* C19 *)
Ends == <>(out # "running")
=============================================================================
