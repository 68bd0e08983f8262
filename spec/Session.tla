------------------------------ MODULE Session ------------------------------
(***************************************************************************
 The library as a state machine: a user creates metrics, changes their
 settings, clones them, parses queries, and asks for distances, with or
 without ranges, sharing one buffer of ranges among all the calls.

   insts  the settings of each metric instance (NoInst: not created yet)
   query  the last query parsed by each parser, as a sequence of conditions
   buf    the contents of the ranges buffer
   last   the last call and its reply

 Nothing else is remembered: whatever scratch memory the implementation keeps
 in its metrics and parsers is not part of the state, i.e. not observable.
 ***************************************************************************)
EXTENDS Match, Parser

VARIABLES insts, query, buf, last

vars == <<insts, query, buf, last>>

NoInst == [algo |-> 0, case |-> "smart", norm |-> FALSE, scheme |-> "default"]

Fresh(algo) == [NoInst EXCEPT !.algo = algo]


Idle == [op |-> "idle"]

InitSession(slots, parsers) ==
  /\ insts = [s \in slots |-> NoInst]
  /\ query = [p \in parsers |-> <<>>]
  /\ buf = <<>>
  /\ last = Idle

New(s, algo) ==
  /\ insts' = [insts EXCEPT ![s] = Fresh(algo)]
  /\ last' = Idle
  /\ UNCHANGED <<query, buf>>

Clone(s, from) ==
  /\ insts[from] # NoInst
  /\ insts' = [insts EXCEPT ![s] = insts[from]]
  /\ last' = Idle
  /\ UNCHANGED <<query, buf>>

SetCase(s, v) ==
  /\ insts' = [insts EXCEPT ![s].case = v]
  /\ last' = Idle
  /\ UNCHANGED <<query, buf>>

SetNorm(s, v) ==
  /\ insts' = [insts EXCEPT ![s].norm = v]
  /\ last' = Idle
  /\ UNCHANGED <<query, buf>>

SetScheme(s, v) ==
  /\ insts' = [insts EXCEPT ![s].scheme = v]
  /\ last' = Idle
  /\ UNCHANGED <<query, buf>>

(* A new instance and all its settings, as a single step. *)
Configured(s, algo, case, norm, scheme) ==
  /\ insts' = [insts EXCEPT ![s] = [algo |-> algo, case |-> case, norm |-> norm, scheme |-> scheme]]
  /\ last' = Idle
  /\ UNCHANGED <<query, buf>>

Parse(p, text) ==
  /\ query' = [query EXCEPT ![p] = ParseExtended(text)]
  /\ last' = Idle
  /\ UNCHANGED <<insts, buf>>

ParseNotExtended(p, text) ==
  /\ query' = [query EXCEPT ![p] = ParseRaw(text)]
  /\ last' = Idle
  /\ UNCHANGED <<insts, buf>>

(* A new parser, or a clone of one: neither has parsed anything. *)
NewParser(p) ==
  /\ query' = [query EXCEPT ![p] = <<>>]
  /\ last' = Idle
  /\ UNCHANGED <<insts, buf>>

CloneParser(p) == NewParser(p)

(* The user replaces the contents of the buffer. *)
SetBuf(b) ==
  /\ buf' = b
  /\ last' = Idle
  /\ UNCHANGED <<insts, query>>

Distance(s, p, cand) ==
  /\ last' = [op |-> "distance", cfg |-> insts[s], query |-> query[p], cand |-> cand,
              reply |-> Reply(MatchQuery(insts[s], query[p], cand)),
              before |-> buf, after |-> buf]
  /\ UNCHANGED <<insts, query, buf>>

(* The ranges appended to the buffer are unspecified but for the characters
   they cover; here they are the canonical ones. *)
DistanceAndRanges(s, p, cand) ==
  LET r == MatchQuery(insts[s], query[p], cand)
      b == IF r.ok THEN buf \o ToRanges(cand, r.pos) ELSE buf
  IN /\ buf' = b
     /\ last' = [op |-> "ranges", cfg |-> insts[s], query |-> query[p], cand |-> cand,
                 reply |-> Reply(r), before |-> buf, after |-> b]
     /\ UNCHANGED <<insts, query>>
=============================================================================
