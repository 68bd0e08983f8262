------------------------------ MODULE MC_Grow ------------------------------
(***************************************************************************
 Plans (see Grow) whose units become more and more: from some number on, one
 more always has the same effect.
 ***************************************************************************)
EXTENDS Grow, Json

CONSTANTS Algos, Cases, Norms, Schemes, Plans, More, Lengths, Every

VARIABLES cfg, plan, count

mvars == <<cfg, plan, count>>

E == <<>>

Pair(qp, qu, qs, qv, qt, cp, cu, cs) ==
  [ext |-> TRUE, qp |-> qp, qu |-> qu, qs |-> qs, qv |-> qv, qt |-> qt, cp |-> cp, cu |-> cu, cs |-> cs]

Plan(ext, qp, qu, qs, cp, cu, cs) ==
  [ext |-> ext, qp |-> qp, qu |-> qu, qs |-> qs, qv |-> E, qt |-> E, cp |-> cp, cu |-> cu, cs |-> cs]

(* Terms and what they match grow together: "a", "é", "\ " and "ab". *)
RunPlans ==
  {Plan(TRUE, a, u[1], b, c, u[2], d) :
     a \in {E, <<39>>, <<94>>, <<33>>, <<39, 65>>, <<39, 98, 32>>},
     u \in {<<(<<97>>), <<97>>>>, <<(<<233>>), <<233>>>>, <<(<<92, 32>>), <<32>>>>, <<(<<97, 98>>), <<97, 98>>>>},
     b \in {E, <<36>>, <<98>>, <<98, 36>>},
     c \in {E, <<45>>, <<120, 65>>, <<233, 32>>},
     d \in {E, <<32>>, <<98>>, <<45, 233>>}}

FewRuns == {p \in RunPlans : p.cs # <<32>> /\ p.cp # E /\ p.qu # <<97, 98>>}

FuzzyRuns == {p \in RunPlans : p.qp = E /\ p.qs \in {E, <<98>>}}
ExactRuns == {p \in RunPlans : p.qp # E /\ p.qp[1] = 39}
AnchoredRuns == {p \in RunPlans : (p.qp = <<94>>) \/ (p.qp = E /\ p.qs \notin {E, <<98>>})}

RawRuns ==
  {Plan(FALSE, a, u, b, c, u, d) :
     a \in {E, <<39>>, <<65>>}, u \in {<<97>>, <<32>>, <<124, 32>>},
     b \in {E, <<36>>, <<32>>}, c \in {E, <<45, 39>>, <<120, 65>>}, d \in {E, <<32>>, <<36>>}}

(* More and more terms: "a ", "'a ", "a | ", "!z ", "z | ", "^a ", "| ", " ", "b$ ",
   "b\ ", "\". *)
TermPlans ==
  {Plan(TRUE, a, u, b, c, E, E) :
     a \in {E, <<39, 98, 32>>, <<98, 32, 124, 32>>},
     u \in {<<97, 32>>, <<39, 97, 32>>, <<97, 32, 124, 32>>, <<33, 122, 32>>, <<122, 32, 124, 32>>, <<94, 97, 32>>,
            <<124, 32>>, <<32>>, <<98, 36, 32>>, <<98, 92, 32>>, <<92>>},
     b \in {E, <<98>>, <<33, 98>>, <<124, 32, 98>>},
     c \in {E, <<97, 98>>, <<120, 97, 32, 98>>, <<233, 97, 98>>}}

FewTerms == {p \in TermPlans : p.cp \in {<<97, 98>>, <<233, 97, 98>>}}

(* Candidates which have more and more of what the query looks for. *)
CandPlans ==
  {Plan(TRUE, q, E, E, a, u, b) :
     q \in {<<97, 98>>, <<39, 97, 98>>, <<94, 97, 98>>, <<97, 98, 36>>, <<33, 97, 98>>, <<94, 97, 98, 36>>,
            <<97, 32, 39, 98>>, <<39, 98>>, <<94, 92, 32, 97>>},
     u \in {<<97, 98>>, <<97>>, <<32>>, <<98, 97, 45>>, <<233>>, <<98, 65>>},
     a \in {E, <<98>>, <<120, 65>>},
     b \in {E, <<98>>, <<32, 97>>, <<97, 98>>}}

FewCands == {p \in CandPlans : p.cp # E /\ p.cu \in {<<97, 98>>, <<32>>, <<98, 97, 45>>} /\ p.cs \in {E, <<32, 97>>}}

(* Two terms which grow with the candidate, the second of which matches about all of
   what the first one matches or what is in between, or rejects it once that is
   matched: "aaa a-a-a-", "aaa 'a-a-a-", "aaa ^a-a-a-", "aaa ---", "aaa !a-a-a-", ... *)
AnyPairs ==
  {Pair(a, u[1], m, u[2], t, c, u[3], d) :
     a \in {E, <<122, 32, 124, 32>>, <<33, 122, 32>>},
     u \in {<<(<<97>>), <<97, 45>>, <<97, 45>>>>, <<(<<233>>), <<233, 45>>, <<233, 45>>>>, <<(<<97>>), <<97, 233>>, <<97, 233>>>>},
     m \in {<<32>>, <<32, 39>>, <<32, 94>>, <<32, 33>>},
     t \in {E, <<36>>},
     c \in {E, <<120>>},
     d \in {E, <<98>>, <<32>>}}
  \cup {Pair(a, <<97>>, <<32>>, <<45>>, E, c, <<97, 45>>, d) :
     a \in {E, <<122, 32, 124, 32>>, <<33, 122, 32>>},
     c \in {E, <<120>>},
     d \in {E, <<98>>, <<32>>}}

(* A term which is still to reject them does. *)
PairPlans == {p \in AnyPairs : p.qs # <<32, 33>> \/ p.qt = E \/ p.cs # <<98>>}

FewPairs == {p \in PairPlans : p.qp = E /\ p.cs # <<98>> /\ (p.qt = E \/ p.qs = <<32, 94>>)}

(* How many units are enough. *)
Base(p) == IF p.cu # E /\ p.qu = E THEN 12 + 26 * Len(p.qp) ELSE 8

Init ==
  /\ cfg \in [algo : Algos, case : Cases, norm : Norms, scheme : Schemes]
  /\ plan \in Plans
  /\ count = Base(plan)

Next == /\ count < Base(plan) + More
        /\ count' = count + 1
        /\ UNCHANGED <<cfg, plan>>

Spec == Init /\ [][Next]_mvars

Law ==
  count >= Base(plan) + 2 =>
    Progress(Grown(cfg, plan, Base(plan)), Grown(cfg, plan, Base(plan) + 1), Grown(cfg, plan, count),
             count - Base(plan) - 1)

(* What is observed is brought back to what is known. *)
Back ==
  LET r == Grown(cfg, plan, count)
      c == Shrunk(cfg, plan, [op |-> "r", k |-> Base(plan), n |-> count, r |-> IF r.ok THEN <<1, r.score>> ELSE <<0, 0>>,
                              b |-> r.rs])
  IN Conforms(c) /\ RangesWellFormed(c)

(***************************************************************************
 Behaviours: the same with very many units.
 ***************************************************************************)
Plenty == <<70000, 65536, 131073, 65535, 100000>>
Huge == <<1048577, 70000, 2000003, 131073, 1300001, 700001>>

(* What takes quadratic time, or the second metric's matrices, has fewer: looking
   for what is almost everywhere, or for so many terms. *)
Capped(n) ==
  LET both == plan.qu # E /\ plan.cu # E
      found == Grown(cfg, plan, Base(plan)).ok
      looks == plan.qp # E /\ plan.qp[1] \in {33, 39} /\ plan.ext
      looks2 == plan.qs[Len(plan.qs)] \in {33, 39}
      fuzzy == \E cd \in Range(GrownQuery(plan, Base(plan))) : \E t \in Range(cd) : t.kind = "fuzzy"
      most == IF both /\ cfg.algo = 2 /\ fuzzy THEN 1100
              ELSE IF plan.qv # E THEN (IF found /\ (~looks2 \/ plan.cs = E) THEN 40000 ELSE 3000)
              ELSE IF both /\ (~found \/ (looks /\ plan.cs # E)) THEN 3000
              ELSE IF plan.qu # E /\ plan.cu = E THEN 131073
              ELSE IF cfg.algo = 2 THEN 200000
              ELSE 2100000
  IN IF n <= most THEN n ELSE most - (n % 50)

HashOf(s, h) == FoldLeft(LAMBDA a, v : (a * 31 + v) % 65521, h, s)

Pick == HashOf(plan.qp, HashOf(plan.qu, HashOf(plan.qs, HashOf(plan.qv, HashOf(plan.qt, HashOf(plan.cp, HashOf(plan.cu, HashOf(plan.cs, cfg.algo))))))))

Asked(op) ==
  [o |-> "g", op |-> op, s |-> 1, ext |-> plan.ext, qp |-> plan.qp, qu |-> plan.qu, qs |-> plan.qs,
   qv |-> plan.qv, qt |-> plan.qt, cp |-> plan.cp, cu |-> plan.cu, cs |-> plan.cs, k |-> Base(plan),
   n |-> Capped(Lengths[1 + (Pick % Len(Lengths))])]

Emit ==
  PrintT("BEHAVIOUR " \o ToJson(
    << [o |-> "cfg", s |-> 1, a |-> cfg.algo, c |-> cfg.case, n |-> cfg.norm, h |-> cfg.scheme],
       Asked("d"), Asked("r") >>))

Sometimes == (Pick % Every # 0) \/ Emit

Growths == Init /\ [][FALSE]_mvars
=============================================================================
