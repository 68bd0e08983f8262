------------------------------ MODULE MC_Order ------------------------------
(***************************************************************************
 Distances.  The order of Props, in which the better score comes first, is a
 total order, and sorting with it, one exchange of neighbours at a time, ends
 up with the better scores first whatever the order of the exchanges.
 ***************************************************************************)
EXTENDS Props, Parser, Json

CONSTANTS Scores, MaxLen

SomeScores == {-20, -1, 0, 16, 40}
MoreScores == {-30, -20, -1, 0, 1, 16, 40}

VARIABLES start, list

mvars == <<start, list>>

Cmp(x, y) == Sign(y - x)
Before_(x, y) == Cmp(x, y) = -1

Init == /\ start \in UNION {[1..n -> Scores] : n \in 0..MaxLen}
        /\ list = start

Exchange(i) ==
  /\ Before_(list[i + 1], list[i])
  /\ list' = [list EXCEPT ![i] = list[i + 1], ![i + 1] = list[i]]
  /\ UNCHANGED start

Next == \E i \in 1..(Len(list) - 1) : Exchange(i)

Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)

Laws ==
  \A x, y \in Scores :
    /\ Cmp(x, y) = -Cmp(y, x)
    /\ (Cmp(x, y) = 0) = (x = y)
    /\ Before_(x, y) = (x > y)
    /\ \A z \in Scores : Before_(x, y) /\ Before_(y, z) => Before_(x, z)
    \* What is asked of an observed comparison is satisfiable, by one answer.
    /\ LET e(c) == [x |-> x, y |-> y, c |-> c, p |-> c, e |-> c = 0, ne |-> c # 0, l |-> c = -1, g |-> c = 1,
                    le |-> c # 1, ge |-> c # -1, mn |-> IF c = 1 THEN y ELSE x,
                    mx |-> IF c = 1 THEN x ELSE y, d |-> 0, cl |-> Median(x, y, 0)]
       IN \A c \in {-1, 0, 1} : OrderHolds(e(c)) = (c = Cmp(x, y))

Settled == \A i \in 1..(Len(list) - 1) : ~Before_(list[i + 1], list[i])

Sorted == Settled => SortHolds([x |-> start, y |-> list, d |-> 0])

Sorts == <>[]Settled

(***************************************************************************
 Behaviours: each list is one of scores that calls give, in several ways each;
 its distances are compared with one another and with the default one, and
 sorted.
 ***************************************************************************)
Times_(n, s) == FlattenSeq([x \in 1..n |-> s])

Way(a, ext, q, c) == [a |-> a, ext |-> ext, q |-> q, c |-> c]

Ways == <<
  Way(1, FALSE, <<97, 98>>, <<97>> \o Times_(60, <<120>>) \o <<98>>),      \* negative
  Way(1, FALSE, <<98, 97>>, <<98>> \o Times_(60, <<48>>) \o <<97>>),       \* the same
  Way(1, FALSE, <<97, 98>>, <<97>> \o Times_(300, <<120>>) \o <<98>>),     \* far below
  Way(2, TRUE, <<33, 122>>, <<97, 98>>),                                    \* 0: nothing is asked for
  Way(1, TRUE, <<>>, <<97>>),
  Way(2, FALSE, <<98>>, <<97, 98>>),                                        \* one character
  Way(1, FALSE, <<99>>, <<97, 98, 99>>),
  Way(2, FALSE, <<97, 98>>, <<120, 97, 98>>),                               \* two
  Way(2, TRUE, <<97, 32, 98>>, <<97, 45, 98>>),
  Way(1, FALSE, Times_(16, <<97>>), Times_(16, <<97>>)),                    \* more than a byte holds
  Way(2, FALSE, Times_(1300, <<97>>), Times_(1300, <<97>>)) >>             \* or two

ScoreOf_(w) ==
  LET r == MatchQuery([algo |-> w.a, case |-> "smart", norm |-> FALSE, scheme |-> "default"],
                      IF w.ext THEN ParseExtended(w.q) ELSE ParseRaw(w.q), w.c)
  IN IF r.ok THEN r.score ELSE Assert(FALSE, <<"no match", w>>)

Given == [x \in 1..Len(Ways) |-> ScoreOf_(Ways[x])]

GivenScores == {Given[x] : x \in 1..Len(Ways)}

(* The ways to a score are taken in turns. *)
WayTo(v, k) ==
  LET all == SetToSortSeq({x \in 1..Len(Ways) : Given[x] = v}, <)
  IN Ways[all[1 + (k % Len(all))]]

Call_(v, k) ==
  LET w == WayTo(v, k)
  IN << [o |-> "cfg", s |-> 1, a |-> w.a, c |-> "smart", n |-> FALSE, h |-> "default"],
        [o |-> IF w.ext THEN "parse" ELSE "raw", p |-> 1, q |-> w.q],
        [o |-> "d", s |-> 1, p |-> 1, c |-> w.c] >>

(* The default distance is the 0th. *)
Compared == FlattenSeq([i \in 1..Len(start) + 1 |->
  [j \in 1..Len(start) + 1 |-> [o |-> "cmp", i |-> i - 1, j |-> j - 1]]])

Ordered ==
  list = start => PrintT("BEHAVIOUR " \o ToJson(
     FlattenSeq([k \in 1..Len(start) |-> Call_(start[k], k)]) \o Compared \o <<[o |-> "sort"]>>))

Lists == Init /\ [][FALSE]_mvars
=============================================================================
