------------------------------ MODULE MC_Buffer ------------------------------
(***************************************************************************
 A buffer of ranges shared by calls on two instances, one of each metric, and
 refilled by the user with anything at times.  The buffer is a log: whatever
 the calls, what was in it stays there, in place.  Every sequence of steps
 of a given length is also a test.
 ***************************************************************************)
EXTENDS Session, Json, FiniteSets

CONSTANTS Chosen, MaxLen, Prefills

VARIABLES hist,
          pre    \* the buffer at first

mvars == <<insts, query, buf, last, hist, pre>>

(* Queries and candidates: matches of one or several terms, adjacent, nested
   or apart, and failures before and after some of the terms matched. *)
Ask_(q, c) == [q |-> q, c |-> c]

Asks == <<
  (* 1 "bc" in "abcd" *)
  Ask_(<<98, 99>>, <<97, 98, 99, 100>>),
  (* 2 "ad bc" in "abcda" *)
  Ask_(<<97, 100, 32, 98, 99>>, <<97, 98, 99, 100, 97>>),
  (* 3 "bc ad zz", which fails at last *)
  Ask_(<<98, 99, 32, 97, 100, 32, 122, 122>>, <<97, 98, 99, 100>>),
  (* 4 "a az", which fails halfway through the second *)
  Ask_(<<97, 32, 97, 122>>, <<97, 98, 97>>),
  (* 5 "c$ ^a 'b" in "abc", the parts from the last to the first *)
  Ask_(<<99, 36, 32, 94, 97, 32, 39, 98>>, <<97, 98, 99>>),
  (* 6 "ac !b" which fails on the negation *)
  Ask_(<<97, 99, 32, 33, 98>>, <<97, 98, 99>>),
  (* 7 "z | c b" in "\u20acb\u20acc" *)
  Ask_(<<122, 32, 124, 32, 99, 32, 98>>, <<8364, 98, 8364, 99>>),
  (* 8 the empty query *)
  Ask_(<<>>, <<97>>),
  (* 9 "!z", satisfied *)
  Ask_(<<33, 122>>, <<97>>),
  (* 10 "ae ce bd abcde", nested *)
  Ask_(<<97, 101, 32, 99, 101, 32, 98, 100, 32, 39, 97, 98, 99, 100, 101>>, <<97, 98, 99, 100, 101>>) >>

(* What the user leaves in the buffer: ranges which come before, overlap, touch,
   or come after those of a call; unsorted, empty, reversed. *)
SomePrefills == << <<>>, <<<<0, 1>>>>, <<<<2, 9>>, <<0, 3>>>>, <<<<3, 3>>, <<1, 2>>, <<4, 40>>>> >>

AllAsks == 1..Len(Asks)
AllPrefills == 1..Len(SomePrefills)

Init ==
  /\ insts = [s \in {1, 2} |-> Fresh(s)]
  /\ query = [p \in {1} |-> <<>>] /\ last = Idle /\ hist = <<>>
  /\ \E b \in Prefills : buf = SomePrefills[b] /\ pre = buf

Log(e) == hist' = Append(hist, e)

(* A parse and a call, as one step. *)
AskWith(s, x, r) ==
  LET q == ParseExtended(Asks[x].q)
      m == MatchQuery(insts[s], q, Asks[x].c)
      b == IF r /\ m.ok THEN buf \o ToRanges(Asks[x].c, m.pos) ELSE buf
  IN /\ query' = [query EXCEPT ![1] = q]
     /\ buf' = b
     /\ last' = [op |-> IF r THEN "r" ELSE "d", cfg |-> insts[s], query |-> q, cand |-> Asks[x].c,
                 reply |-> Reply(m), before |-> buf, after |-> b]
     /\ UNCHANGED <<insts, pre>>
     /\ Log([s |-> s, x |-> x, r |-> r])

Next == /\ Len(hist) < MaxLen
        /\ \E s \in {1, 2}, x \in Chosen, r \in BOOLEAN : AskWith(s, x, r)

Spec == Init /\ [][Next]_mvars

Called == last # Idle

(* C04 *)
OnlyAppended ==
  [][/\ SubSeq(buf', 1, Len(buf)) = buf
     /\ last'.reply[1] = 0 => buf' = buf
     /\ last'.op = "d" => buf' = buf]_mvars

(* C03, C22: what was appended is well-formed, and covers what matched. *)
Appended ==
  Called =>
    LET t == SubSeq(last.after, Len(last.before) + 1, Len(last.after))
        m == MatchQuery(last.cfg, last.query, last.cand)
    IN /\ WellFormed(last.cand, t)
       /\ last.op = "r" => Covered(last.cand, t) = m.pos

Event(h) ==
  <<[o |-> "parse", p |-> 1, q |-> Asks[h.x].q],
    [o |-> IF h.r THEN "r" ELSE "d", s |-> h.s, p |-> 1, c |-> Asks[h.x].c]>>

Emit ==
  Len(hist') = MaxLen =>
    PrintT("BEHAVIOUR " \o ToJson(
      <<[o |-> "new", s |-> 1, a |-> 1], [o |-> "new", s |-> 2, a |-> 2],
        [o |-> "buf", b |-> pre]>>
      \o FlattenSeq([x \in 1..Len(hist') |-> Event(hist'[x])])))
=============================================================================
