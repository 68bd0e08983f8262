----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************
 Checks recorded executions of the implementation.  IOEnv.TRACE is a file with
 one execution per line: what was called, and what was observed.  Each event
 is an action of the specification (Session), the property IOEnv.PROP being
 what is asked of the observed replies and ranges (see Props).
 ***************************************************************************)
EXTENDS Session, Far, Grow, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

Prop == IOEnv.PROP

VARIABLES tr, i, seen, ok

tvars == <<insts, query, buf, last, tr, i, seen, ok>>

Slots == 1..4
Parsers == 1..2

TraceInit ==
  /\ InitSession(Slots, Parsers)
  /\ tr \in 1..Len(Traces)
  /\ i = 1
  /\ seen = <<>>
  /\ ok = TRUE

(* Which properties need to remember what was observed: all of the calls, or
   the last one. *)
Remembers == Prop \in {"C05", "C06", "C11", "C12", "C22", "C25"}
RemembersLast == Prop \in {"C21", "C24"}

(* No action of the specification panics or never ends. *)
Returned(r) == r[1] \in {0, 1}

Holds(c) ==
  CASE Prop = "C01" -> FuzzyIsSubsequence(c)
    [] Prop = "C02" -> RangesSpell(c)
    [] Prop = "C03" -> RangesWellFormed(c)
    [] Prop = "C04" -> BufferAppended(c)
    [] Prop = "C05" -> SameAnswers(c, seen)
    [] Prop = "C06" -> SameResults(c, seen)
    [] Prop = "C11" -> NegationHolds(c, seen)
    [] Prop = "C12" -> Composes(c, seen)
    [] Prop = "C18" -> TRUE
    [] Prop = "C19" -> TRUE
    [] Prop = "C20" -> EmptyMatchesAll(c)
    [] Prop = "C21" -> RepresentationFree(c, seen)
    [] Prop = "C22" -> UnionOfTerms(c, seen)
    [] Prop = "C24" -> MetricsAgree(c, seen)
    [] Prop = "C25" -> SameResults(c, seen)
    [] OTHER -> Conforms(c)

(* What is printed about a rejected call, for whoever reads the report. *)
Explain(e, c) ==
  PrintT(<<"REJECT", tr, i, Prop, ToJson([observed |-> e, query |-> c.query, settings |-> c.cfg,
           specified |-> LET r == MatchQuery(c.cfg, c.query, c.cand)
                         IN [reply |-> Reply(r), ranges |-> ToRanges(c.cand, r.pos)]])>>)

ExplainEvent(e) == PrintT(<<"REJECT", tr, i, Prop, ToJson([observed |-> e])>>)

(* A call, as observed. *)
Observed(e, before) ==
  [op |-> IF e.o = "d" THEN "d" ELSE "r", cfg |-> insts[e.s], query |-> query[e.p],
   cand |-> e.c, reply |-> e.r, before |-> before,
   after |-> IF e.o = "d" THEN before ELSE e.b]

Observe(e, before) ==
  LET c == Observed(e, before)
      good == Returned(e.r) /\ Holds(c)
  IN /\ ok' = (good \/ ~Explain(e, c))
     /\ buf' = c.after
     /\ seen' = IF RemembersLast THEN <<c>>
                ELSE IF Remembers THEN Append(seen, c) ELSE seen
     /\ UNCHANGED <<insts, query, last>>

(* A call on a candidate with a filler (see Far), and a buffer of its own. *)
ObserveFar(e) ==
  LET cfg == insts[e.s]
      qry == query[e.p]
      c   == Brought(cfg, qry, e)
      good == Returned(e.r) /\ Holds(c)
  IN /\ Assert(Sound(cfg, qry, e), <<"not a filler", e>>)
     /\ ok' = (good \/ ~Explain(e, c))
     /\ seen' = IF RemembersLast THEN <<c>>
                ELSE IF Remembers THEN Append(seen, c) ELSE seen
     /\ UNCHANGED vars

(* A call on a query and a candidate which have many units (see Grow). *)
ObserveGrown(e) ==
  LET cfg == insts[e.s]
      c   == Shrunk(cfg, e, e)
      good == Returned(e.r) /\ Holds(c)
  IN /\ Assert(SteadyFrom(cfg, e, e.k) /\ e.n > e.k + 1, <<"not steady", e>>)
     /\ ok' = (good \/ ~Explain(e, c))
     /\ seen' = IF RemembersLast THEN <<c>>
                ELSE IF Remembers THEN Append(seen, c) ELSE seen
     /\ UNCHANGED vars

(* An event which isn't about matching. *)
Note(e, good) == /\ ok' = (good \/ ~ExplainEvent(e))
                 /\ UNCHANGED seen

Quiet == UNCHANGED <<seen, ok>>

Consume(e) ==
  CASE e.o = "new"    -> New(e.s, e.a) /\ Quiet
    [] e.o = "clone"  -> Clone(e.s, e.f) /\ Quiet
    [] e.o = "case"   -> SetCase(e.s, e.v) /\ Quiet
    [] e.o = "norm"   -> SetNorm(e.s, e.v) /\ Quiet
    [] e.o = "scheme" -> SetScheme(e.s, e.v) /\ Quiet
    [] e.o = "cfg"    -> Configured(e.s, e.a, e.c, e.n, e.h) /\ Quiet
    [] e.o = "parse"  -> Parse(e.p, e.q) /\ Note(e, Returned(e.r))
    [] e.o = "raw"    -> ParseNotExtended(e.p, e.q) /\ Note(e, Returned(e.r))
    [] e.o = "pnew"   -> NewParser(e.p) /\ Quiet
    [] e.o = "pclone" -> CloneParser(e.p) /\ Quiet
    [] e.o = "buf"    -> SetBuf(e.b) /\ Quiet
    [] e.o = "d"      -> Observe(e, buf)
    [] e.o = "r"      -> Observe(e, buf)
    [] e.o = "x"      -> Observe(e, <<>>)
    [] e.o = "f"      -> ObserveFar(e)
    [] e.o = "g"      -> ObserveGrown(e)
    [] e.o = "cmp"    -> Note(e, OrderHolds(e)) /\ UNCHANGED vars
    [] e.o = "show"   -> Note(e, Shows(e, insts[e.s])) /\ UNCHANGED vars
    \* Other instances and parsers, which are gone by then.
    [] e.o = "others" -> UNCHANGED vars /\ Quiet
    \* What a thread observed follows its return.
    [] e.o \in {"begin", "return"} -> UNCHANGED vars /\ Quiet
    [] e.o = "sort"   -> Note(e, SortHolds(e)) /\ UNCHANGED vars

TraceNext ==
  /\ i <= Len(Traces[tr].ev)
  /\ i' = i + 1
  /\ tr' = tr
  /\ Consume(Traces[tr].ev[i])

TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* Every observation is allowed. *)
Allowed == ok
=============================================================================
