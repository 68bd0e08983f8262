------------------------------- MODULE Items --------------------------------
(***************************************************************************
 Calls: pairs of a query and a candidate, chosen to exercise whatever memory
 an implementation may keep from one to the next.
 ***************************************************************************)
EXTENDS Session

Rep(n, s) == FlattenSeq([x \in 1..n |-> s])

(* A query (extended or not) and a candidate. *)
It(ext, q, c) == [ext |-> ext, q |-> q, c |-> c]

Items == <<
  (* 1 "abc" in a short candidate, not contiguous *)
  It(TRUE, <<97, 98, 99>>, <<120, 97, 95, 98, 66, 99, 45, 97, 98, 99>>),
  (* 2 "ab" in a longer one, with other bonuses at the same places *)
  It(TRUE, <<97, 98>>, Rep(5, <<47, 97, 65, 98>>)),
  (* 3 no match, halfway through *)
  It(TRUE, <<97, 98, 122>>, <<97, 98, 97, 98>>),
  (* 4 a single character *)
  It(TRUE, <<98>>, <<97, 98, 32, 98>>),
  (* 5 non-ASCII, folded *)
  It(TRUE, <<97, 233, 66>>, <<225, 97, 201, 233, 98, 66, 201, 66>>),
  (* 6 many terms: ^a 'b | c !z c$ *)
  It(TRUE, <<94, 97, 32, 39, 98, 32, 124, 32, 99, 32, 33, 122, 32, 99, 36>>,
     <<32, 97, 95, 99, 66, 45, 98, 99>>),
  (* 7 the empty candidate *)
  It(TRUE, <<97>>, <<>>),
  (* 8 the empty query *)
  It(TRUE, <<>>, <<97, 98>>),
  (* 9 wider than the memory there is at first: 150 characters, 30 of them asked for *)
  It(FALSE, Rep(15, <<97, 98>>), Rep(50, <<97, 95, 98>>)),
  (* 10 the same in part, not ASCII *)
  It(FALSE, Rep(3, <<97, 98>>), <<8364>> \o Rep(45, <<98, 47, 97>>)),
  (* 11 a long query in the extended syntax, escaped spaces included *)
  It(TRUE, Rep(35, <<97, 92, 32>>) \o <<98>>, Rep(40, <<97, 32>>) \o <<98>>),
  (* 12 an exact term with several occurrences *)
  It(TRUE, <<39, 98, 97>>, Rep(20, <<98, 97>>) \o <<32, 98, 97>>),
  (* 13 a single non-ASCII character, at the end of a long candidate *)
  It(FALSE, <<233>>, Rep(70, <<98, 45>>) \o <<201>>),
  (* 14 spaces in excess, in the query and in the candidate *)
  It(TRUE, <<94, 92, 32, 97, 36>>, <<32, 32, 32, 97, 32>>) >>

Parsed(it) == IF it.ext THEN ParseExtended(it.q) ELSE ParseRaw(it.q)

(* The items are what they are meant to be. *)
Said(x) == MatchQuery([NoInst EXCEPT !.algo = 2],
                      Parsed(Items[x]), Items[x].c)

ASSUME \A x \in 1..Len(Items) : Said(x).ok = (x \notin {3, 7})

ParseEvent(p, it) == [o |-> IF it.ext THEN "parse" ELSE "raw", p |-> p, q |-> it.q]
=============================================================================
