----------------------------- MODULE MC_History -----------------------------
(***************************************************************************
 Histories of calls on one instance, with one parser and one buffer, as
 behaviours to step the implementation through.  Calls range over items: pairs
 of a query and a candidate, chosen to exercise the memory an implementation
 may keep (see module Items).  What was done before has no bearing on a reply: every
 behaviour ends with a call made twice, the second time on a fresh instance
 with a fresh parser.

 One behaviour is generated for every transition of the state graph, where the
 state has the settings and the last few steps (Memory).
 ***************************************************************************)
EXTENDS Session, Items, Json, FiniteSets

CONSTANTS Algos, Case0, Norm0, Scheme0,   \* the settings at first
          Chosen,                         \* the items used, by index
          Ops,                            \* of "d", "x"
          Detours,                        \* whether settings are changed and restored, and instances cloned
          Memory, MaxLen

VARIABLE hist

mvars == <<insts, query, buf, last, hist>>

Init == /\ insts \in [{1} -> [algo : Algos, case : Case0, norm : Norm0, scheme : Scheme0]]
        /\ query = [p \in {1} |-> <<>>] /\ buf = <<>> /\ last = Idle
        /\ hist = <<>>

Log(es) == hist' = Append(hist, es)

(* What Match says of an item is checked once, below. *)
Ask(x, op) ==
  /\ query' = [p \in {1} |-> Parsed(Items[x])]
  /\ buf' = <<>>
  /\ last' = [item |-> x, op |-> op]
  /\ UNCHANGED insts
  /\ Log(<<ParseEvent(1, Items[x]), [o |-> op, s |-> 1, p |-> 1, c |-> Items[x].c]>>)

(* Other settings for a call, then the first ones again; a clone in place of
   the instance; a clone in place of the parser. *)
Detour ==
  /\ Detours
  /\ UNCHANGED <<query, buf, insts>>
  /\ last' = Idle
  /\ LET i == insts[1]
         c == CHOOSE v \in {"smart", "sensitive", "insensitive"} : v # i.case
         h == CHOOSE v \in {"default", "path", "history"} : v # i.scheme
         call == <<ParseEvent(1, Items[2]), [o |-> "d", s |-> 1, p |-> 1, c |-> Items[2].c]>>
     IN \/ Log(<<[o |-> "case", s |-> 1, v |-> c]>> \o call \o <<[o |-> "case", s |-> 1, v |-> i.case]>>)
        \/ Log(<<[o |-> "norm", s |-> 1, v |-> ~i.norm]>> \o call \o <<[o |-> "norm", s |-> 1, v |-> i.norm]>>)
        \/ Log(<<[o |-> "scheme", s |-> 1, v |-> h]>> \o call \o <<[o |-> "scheme", s |-> 1, v |-> i.scheme]>>)
        \/ Log(<<[o |-> "clone", s |-> 1, f |-> 1]>>)
        \/ Log(<<[o |-> "pclone", p |-> 1]>>)

Next == /\ Len(hist) < MaxLen
        /\ \/ \E x \in Chosen, op \in Ops : Ask(x, op)
           \/ Detour

Spec == Init /\ [][Next]_mvars

View == <<insts, SubSeq(hist, Max2(1, Len(hist) - Memory + 1), Len(hist)), Len(hist) < MaxLen>>

(* Calls leave the settings alone. *)
Kept == [][insts' = insts]_mvars

CfgEvent(s, i) == [o |-> "cfg", s |-> s, a |-> i.algo, c |-> i.case, n |-> i.norm, h |-> i.scheme]

Emit ==
  last'.op # "idle" =>
    PrintT("BEHAVIOUR " \o ToJson(
      <<CfgEvent(1, insts'[1])>> \o FlattenSeq(hist')
      \o <<CfgEvent(2, insts'[1]), [o |-> "pnew", p |-> 2],
           ParseEvent(2, Items[last'.item]),
           [o |-> "x", s |-> 2, p |-> 2, c |-> Items[last'.item].c]>>))
=============================================================================
