----------------------------- MODULE MC_Queries -----------------------------
(***************************************************************************
 Queries, built one term at a time, and candidates made for them: what makes
 each term match and what doesn't, in any order and combination.  For each
 query a test is generated: its terms, and their opposites, are asked for alone, and
 then the whole.
 ***************************************************************************)
EXTENDS Session, Json, FiniteSets

CONSTANTS Algos, Cases, Norms, Schemes,
          Kinds, Texts, MaxTerms,
          Filler,       \* the characters around the texts, in the candidates
          BothMetrics,  \* whether the calls are made on both of them
          Whole         \* whether the candidates are the whole set, or a few

VARIABLES cfg, qry, size, done

mvars == <<cfg, qry, size, done, insts, query, buf, last>>

Terms == [kind : Kinds, inv : BOOLEAN, text : Texts]

SomeTexts == {<<97>>, <<98, 97>>, <<97, 98>>, <<66>>, <<98, 32, 97>>, <<233>>}
FewTexts == {<<97>>, <<98, 97>>}

Init ==
  /\ InitSession({1}, {1})
  /\ cfg \in [algo : Algos, case : Cases, norm : Norms, scheme : Schemes]
  /\ qry = <<>> /\ size \in 1..MaxTerms /\ done = FALSE

Count(q) == FoldLeft(LAMBDA a, c : a + Len(c), 0, q)

AddCondition == /\ Count(qry) < size
                /\ \E t \in Terms : qry' = Append(qry, <<t>>)
                /\ UNCHANGED <<cfg, size, done>>

AddAlternative == /\ qry # <<>> /\ Count(qry) < size
                  /\ \E t \in Terms : qry' = [qry EXCEPT ![Len(qry)] = Append(@, t)]
                  /\ UNCHANGED <<cfg, size, done>>

(* Candidates: sequences of texts of the query with fillers between them. *)
TextsOf == UNION {{qry[x][y].text : y \in 1..Len(qry[x])} : x \in 1..Len(qry)}

Flat == FlattenSeq([x \in 1..Len(qry) |-> [y \in 1..Len(qry[x]) |-> qry[x][y].text]])

Firsts == [x \in 1..Len(qry) |-> qry[x][1].text]
Lasts_ == [x \in 1..Len(qry) |-> qry[x][Len(qry[x])].text]

Candidates ==
  LET seqs == {Flat, Reverse(Flat), Firsts, Reverse(Firsts), Lasts_, <<>>} \cup {<<t>> : t \in TextsOf}
      in == {Joined(s, f) : s \in seqs, f \in Filler}
      out == {f \o c : f \in Filler, c \in in} \cup {c \o f : f \in Filler, c \in in}
             \cup {f \o c \o f : f \in Filler, c \in in}
  IN IF Whole THEN in \cup out ELSE in

Fillers == {<<>>, <<32>>, <<45, 120>>, <<8364>>}
FewFillers == {<<>>, <<32>>}

(* The distinct terms, each with its opposite. *)
Alone_ == LET ts == {qry[x][y] : <<x, y>> \in {<<x, y>> \in (1..Len(qry)) \X (1..MaxTerms) : y <= Len(qry[x])}}
          IN ts \cup {[t EXCEPT !.inv = ~@] : t \in ts}

Calls(q, cs) ==
  <<[o |-> "parse", p |-> 1, q |-> Written(q)]>>
  \o FlattenSeq([x \in 1..Len(cs) |->
       <<[o |-> "x", s |-> 1, p |-> 1, c |-> cs[x]]>>
       \o IF BothMetrics THEN <<[o |-> "x", s |-> 2, p |-> 1, c |-> cs[x]]>> ELSE <<>>])

Cfg(s, algo) == [o |-> "cfg", s |-> s, a |-> algo, c |-> cfg.case, n |-> cfg.norm, h |-> cfg.scheme]

Test ==
  LET cs == SetToSeq(Candidates)
      as == SetToSeq(Alone_)
  IN <<Cfg(1, cfg.algo), Cfg(2, 3 - cfg.algo)>>
     \o FlattenSeq([x \in 1..Len(as) |-> Calls(<<<<as[x]>>>>, cs)])
     \o Calls(qry, cs)

Finish == /\ Count(qry) = size /\ ~done
          /\ PrintT("BEHAVIOUR " \o ToJson(Test))
          /\ done' = TRUE
          /\ UNCHANGED <<cfg, qry, size>>

Next == /\ AddCondition \/ AddAlternative \/ Finish
        /\ UNCHANGED <<insts, query, buf, last>>

Quietly == /\ AddCondition \/ AddAlternative
           /\ UNCHANGED <<insts, query, buf, last>>

Spec == Init /\ [][Next]_mvars
QuietSpec == Init /\ [][Quietly]_mvars

(* C13: what is written is what is read. *)
RoundTrip == ParseExtended(Written(qry)) = qry
=============================================================================
