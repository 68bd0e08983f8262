----------------------------- MODULE MC_Threads -----------------------------
(***************************************************************************
 Threads making calls at the same time.  A call takes several steps: it puts
 what it needs of the candidate in the memory of its instance, one character
 at a time, then matches the query against what is there, then replies.  What
 memory a thread works with is given by Uses: when each has its own, whatever
 the interleaving the replies are those of calls made one at a time, and so
 is every reply if it were to take effect at once, at its last step.
 ***************************************************************************)
EXTENDS Props

CONSTANTS Threads, Uses(_), QTexts, CTexts, Calls

VARIABLES mem,     \* of each instance
          todo,    \* how many calls each thread has left
          pc, at,  \* where it is: "idle", "fill", "match"
          arg,     \* the query and the candidate of its call
          reply

mvars == <<mem, todo, pc, at, arg, reply>>

Own(t) == t
Common(t) == 1

SomeQ == { << <<[kind |-> "fuzzy", inv |-> FALSE, text |-> <<97, 98>>]>> >>,
           << <<[kind |-> "exact", inv |-> FALSE, text |-> <<98>>]>>,
              <<[kind |-> "suffix", inv |-> TRUE, text |-> <<97>>]>> >> }
SomeC == { <<97, 98>>, <<98, 97>>, <<97, 45, 98>> }

Cfg(t) == [algo |-> 2, case |-> "smart", norm |-> FALSE, scheme |-> "default"]

None == [query |-> <<>>, cand |-> <<>>]

Init ==
  /\ mem = [t \in Threads |-> <<>>]
  /\ todo = [t \in Threads |-> Calls]
  /\ pc = [t \in Threads |-> "idle"] /\ at = [t \in Threads |-> 0]
  /\ arg = [t \in Threads |-> None] /\ reply = [t \in Threads |-> NoReply]

Begin(t) ==
  /\ pc[t] = "idle" /\ todo[t] > 0
  /\ \E q \in QTexts, c \in CTexts : arg' = [arg EXCEPT ![t] = [query |-> q, cand |-> c]]
  /\ todo' = [todo EXCEPT ![t] = @ - 1]
  /\ pc' = [pc EXCEPT ![t] = "fill"] /\ at' = [at EXCEPT ![t] = 1]
  /\ mem' = [mem EXCEPT ![Uses(t)] = <<>>]
  /\ UNCHANGED reply

Fill(t) ==
  /\ pc[t] = "fill"
  /\ IF at[t] <= Len(arg[t].cand)
     THEN /\ mem' = [mem EXCEPT ![Uses(t)] = Append(@, arg[t].cand[at[t]])]
          /\ at' = [at EXCEPT ![t] = @ + 1] /\ pc' = pc
     ELSE /\ pc' = [pc EXCEPT ![t] = "match"] /\ UNCHANGED <<mem, at>>
  /\ UNCHANGED <<todo, arg, reply>>

Matches(t) ==
  /\ pc[t] = "match"
  /\ reply' = [reply EXCEPT ![t] = Reply(MatchQuery(Cfg(t), arg[t].query, mem[Uses(t)]))]
  /\ pc' = [pc EXCEPT ![t] = "replied"]
  /\ UNCHANGED <<mem, todo, at, arg>>

Return(t) ==
  /\ pc[t] = "replied" /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ arg' = [arg EXCEPT ![t] = None] /\ at' = [at EXCEPT ![t] = 0]
  /\ reply' = [reply EXCEPT ![t] = NoReply]
  /\ UNCHANGED <<mem, todo>>

Next == \E t \in Threads : Begin(t) \/ Fill(t) \/ Matches(t) \/ Return(t)

Spec == Init /\ [][Next]_mvars /\ \A t \in Threads : WF_mvars(Fill(t) \/ Matches(t) \/ Return(t))

(* C25 *)
AsAlone_ == \A t \in Threads :
              pc[t] = "replied" => reply[t] = Reply(MatchQuery(Cfg(t), arg[t].query, arg[t].cand))

(* No step of a thread changes anything of another's. *)
Apart == [][\E t \in Threads : \A u \in Threads \ {t} :
              /\ mem'[Uses(u)] = mem[Uses(u)] /\ pc'[u] = pc[u] /\ arg'[u] = arg[u] /\ reply'[u] = reply[u]]_mvars

Replies == \A t \in Threads : pc[t] = "fill" ~> pc[t] = "replied"
=============================================================================
