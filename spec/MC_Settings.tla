----------------------------- MODULE MC_Settings -----------------------------
(***************************************************************************
 The settings of several instances, as users change, clone and replace them.
 A history is what was done so far; the settings of an instance are what the
 history says of them.

 The module also generates tests.  Emit prints every transition of the state
 graph as a behaviour: a shortest history leading to its source, the step, and
 then a few calls on each instance which tell any two settings apart (checked
 below: Telling).  So an implementation whose state is the one specified, or
 whose extra state is determined by the last steps in View, is found out
 should any of its transitions go elsewhere.
 ***************************************************************************)
EXTENDS Session, Json, FiniteSets

CONSTANTS Slots, Algos, CaseVals, NormVals, SchemeVals, MaxLen,
          Memory    \* how many of the last steps a test depends on

VARIABLE hist

mvars == <<insts, query, buf, last, hist>>

Init == InitSession(Slots, {1}) /\ hist = <<>>

Log(e) == hist' = Append(hist, e)

Next ==
  /\ Len(hist) < MaxLen
  /\ \E s \in Slots :
       \/ \E a \in Algos : New(s, a) /\ Log([o |-> "new", s |-> s, a |-> a])
       \/ \E f \in Slots \ {s} : Clone(s, f) /\ Log([o |-> "clone", s |-> s, f |-> f])
       \/ /\ insts[s] # NoInst
          /\ \/ \E v \in CaseVals : SetCase(s, v) /\ Log([o |-> "case", s |-> s, v |-> v])
             \/ \E v \in NormVals : SetNorm(s, v) /\ Log([o |-> "norm", s |-> s, v |-> v])
             \/ \E v \in SchemeVals : SetScheme(s, v) /\ Log([o |-> "scheme", s |-> s, v |-> v])

Spec == Init /\ [][Next]_mvars

View == <<insts, SubSeq(hist, Max2(1, Len(hist) - Memory + 1), Len(hist)), Len(hist) < MaxLen>>

(***************************************************************************
 C23.  A setting has the value it was last given, be it by its setter, by the
 creation of the instance, or by its being cloned from another one.
 ***************************************************************************)
RECURSIVE Value(_, _, _)
Value(n, s, f) ==
  IF n = 0 THEN NoInst[f]
  ELSE LET e == hist[n]
       IN IF e.s # s THEN Value(n - 1, s, f)
          ELSE IF e.o = f THEN e.v
          ELSE IF e.o = "new" THEN Fresh(e.a)[f]
          ELSE IF e.o = "clone" THEN Value(n - 1, e.f, f)
          ELSE Value(n - 1, s, f)

LastGiven == \A s \in Slots : \A f \in {"algo", "case", "norm", "scheme"} :
               insts[s][f] = Value(Len(hist), s, f)

(* Steps leave the other instances alone, and the other settings. *)
Fields == {"algo", "case", "norm", "scheme"}

Frame ==
  [][LET e == hist'[Len(hist')]
     IN /\ \A s \in Slots \ {e.s} : insts'[s] = insts[s]
        /\ e.o \in Fields => \A f \in Fields \ {e.o} : insts'[e.s][f] = insts[e.s][f]]_mvars

(* LastGiven is looked at in states; whatever the state a step leads to, and
   however often it was visited before, the step does what it is for. *)
Takes ==
  [][LET e == hist'[Len(hist')]
     IN /\ e.o \in Fields => insts'[e.s][e.o] = e.v
        /\ e.o = "new" => insts'[e.s] = Fresh(e.a)]_mvars

(* An instance which is cloned, and one which isn't used any longer, don't
   tell: setting and resetting is not setting. *)
Idempotent ==
  [][LET e == hist'[Len(hist')]
     IN /\ (e.o = "clone" => insts'[e.s] = insts[e.f])
        /\ (hist # <<>> /\ hist[Len(hist)] = e) => insts' = insts]_mvars

(***************************************************************************
 The tests.
 ***************************************************************************)
(* Queries and candidates, such that the replies tell all the settings apart:
     ac    "Ac;a/c,bc"
     Ba    "ba_BA/B_a,Ba"
     ab    "áb x,a_b"
     b     "xb b"
 *)
Probes == <<
  [o |-> "parse", q |-> <<97, 99>>, c |-> <<65, 99, 59, 97, 47, 99, 44, 98, 99>>],
  [o |-> "parse", q |-> <<66, 97>>, c |-> <<98, 97, 95, 66, 65, 47, 66, 95, 97, 44, 66, 97>>],
  [o |-> "parse", q |-> <<97, 98>>, c |-> <<225, 98, 32, 120, 44, 97, 95, 98>>],
  [o |-> "parse", q |-> <<98>>, c |-> <<120, 98, 32, 98>>] >>

Queried(x) == ParseExtended(x.q)

Outcome(c, x) ==
  LET r == MatchQuery(c, Queried(x), x.c) IN <<Reply(r), r.pos>>

Outcomes(c) == [x \in 1..Len(Probes) |-> Outcome(c, Probes[x])]

AllSettings == [algo : {1, 2}, case : {"smart", "sensitive", "insensitive"},
                norm : BOOLEAN, scheme : {"default", "path", "history"}]

Telling == \A c, d \in AllSettings : c # d => Outcomes(c) # Outcomes(d)

ASSUME Telling

Suffix_ ==
  FlattenSeq([y \in 1..Len(Probes) |->
    << [o |-> Probes[y].o, p |-> 1, q |-> Probes[y].q] >> \o
      FlattenSeq([s \in 1..Cardinality(Slots) |->
         IF insts'[s] = NoInst THEN <<>>
         ELSE << [o |-> "x", s |-> s, p |-> 1, c |-> Probes[y].c] >>])])

Shown == FlattenSeq([s \in 1..Cardinality(Slots) |->
            IF insts'[s] = NoInst THEN <<>> ELSE << [o |-> "show", s |-> s] >>])

Emit == PrintT("BEHAVIOUR " \o ToJson(hist' \o Suffix_ \o Shown))
=============================================================================
