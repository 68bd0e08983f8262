------------------------------ MODULE MC_Turns ------------------------------
(***************************************************************************
 Threads and instances.  An instance is with one thread at a time, which makes
 a call on it and gives it back, to be used by the same thread or by another.
 Calls begin and return, in every order; a call's reply is the one of Match,
 whatever else is under way (MC_Threads: AsAlone_).

 Every history of MaxCalls calls is generated, for threads of the harness to
 take the same steps; each of its calls is then made again, alone, on a fresh
 instance.
 ***************************************************************************)
EXTENDS Session, Items, Json, FiniteSets

CONSTANTS Threads, Slots, Algos, Chosen, MaxCalls, Times

VARIABLES busy,   \* which instance each thread has, if any
          made,   \* how many calls began
          hist

mvars == <<insts, query, buf, last, busy, made, hist>>

Idle_ == 0

Init ==
  /\ insts \in [Slots -> {[NoInst EXCEPT !.algo = a] : a \in Algos}]
  /\ query = [p \in {1} |-> <<>>] /\ buf = <<>> /\ last = Idle
  /\ busy = [t \in Threads |-> Idle_] /\ made = 0
  /\ hist = <<>>

Free(s) == \A t \in Threads : busy[t] # s
Log(e) == hist' = Append(hist, e)

(* Threads and instances are used in order of their number at first. *)
InOrder(t, s) ==
  /\ \A u \in Threads : u < t => \E k \in 1..Len(hist) : hist[k].o = "begin" /\ hist[k].t = u
  /\ \A v \in Slots : v < s => \E k \in 1..Len(hist) : hist[k].o \in {"begin", "clone"} /\ hist[k].s = v

Begin(t, s, x) ==
  /\ made < MaxCalls /\ busy[t] = Idle_ /\ Free(s) /\ InOrder(t, s)
  /\ busy' = [busy EXCEPT ![t] = s] /\ made' = made + 1
  /\ Log([o |-> "begin", t |-> t, s |-> s, e |-> Items[x].ext, q |-> Items[x].q, c |-> Items[x].c, n |-> Times])
  /\ UNCHANGED <<insts, query, buf, last>>

Return(t) ==
  /\ busy[t] # Idle_
  /\ busy' = [busy EXCEPT ![t] = Idle_]
  /\ Log([o |-> "return", t |-> t])
  /\ UNCHANGED <<insts, query, buf, last, made>>

(* A clone takes the place of an instance, once. *)
Cloned(s, f) ==
  /\ made \in 1..MaxCalls - 1 /\ s # f /\ Free(s) /\ Free(f) /\ insts[s] = insts[f]
  /\ \A k \in 1..Len(hist) : hist[k].o # "clone"
  /\ insts' = [insts EXCEPT ![s] = insts[f]]
  /\ Log([o |-> "clone", s |-> s, f |-> f])
  /\ UNCHANGED <<query, buf, last, busy, made>>

Next ==
  \/ \E t \in Threads, s \in Slots, x \in Chosen : Begin(t, s, x)
  \/ \E t \in Threads : Return(t)
  \/ \E s, f \in Slots : Cloned(s, f)

Spec == Init /\ [][Next]_mvars /\ \A t \in Threads : WF_mvars(Return(t))

(* No instance is with two threads. *)
Owned == \A t, u \in Threads : t # u /\ busy[t] # Idle_ => busy[t] # busy[u]

(* Every call returns. *)
Returns == \A t \in Threads : busy[t] # Idle_ ~> busy[t] = Idle_

Over == made = MaxCalls /\ \A t \in Threads : busy[t] = Idle_

CfgEvent(s, i) == [o |-> "cfg", s |-> s, a |-> i.algo, c |-> i.case, n |-> i.norm, h |-> i.scheme]

Head_ == FlattenSeq([s \in 1..Cardinality(Slots) |-> <<CfgEvent(s, insts[s])>>])

(* The calls of the history, as alone. *)
Alone_ ==
  LET calls == SelectSeq(hist, LAMBDA e : e.o = "begin")
      one(e) == << CfgEvent(4, insts[e.s]), [o |-> "pnew", p |-> 2],
                   [o |-> IF e.e THEN "parse" ELSE "raw", p |-> 2, q |-> e.q],
                   [o |-> "x", s |-> 4, p |-> 2, c |-> e.c] >>
  IN FlattenSeq([k \in 1..Len(calls) |-> one(calls[k])])

Played == Over => PrintT("BEHAVIOUR " \o ToJson(Head_ \o hist \o Alone_))
=============================================================================
