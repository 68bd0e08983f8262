---------------------------- MODULE MC_Anchored ----------------------------
(***************************************************************************
 Prefix, suffix and equal terms, against what they are meant to be: for every
 candidate of a small size, said without counting.
 ***************************************************************************)
EXTENDS Props

CONSTANTS QAlpha, CAlpha, MaxQ, MaxC, Cases, Norms, Schemes

VARIABLES cfg, text, cand
mvars == <<cfg, text, cand>>

Init ==
  /\ cfg \in [algo : {1}, case : Cases, norm : Norms, scheme : Schemes]
  /\ text \in UNION {[1..m -> QAlpha] : m \in 1..MaxQ}
  /\ cand = <<>>

Next ==
  /\ Len(cand) < MaxC
  /\ \E c \in CAlpha : cand' = Append(cand, c)
  /\ UNCHANGED <<cfg, text>>

Spec == Init /\ [][Next]_mvars

M == Len(text)
N == Len(cand)

(* The term sits at s: character by character. *)
Sits(s) == /\ s >= 1 /\ s + M - 1 <= N
           /\ \A i \in 1..M :
                CharEq(text[i], cand[s + i - 1], IsSensitive(cfg, text), cfg.norm)

Blank(a, b) == \A j \in a..b : cand[j] = 32

(* The candidate's first non-space character, or its end. *)
FirstWord == CHOOSE j \in 1..(N + 1) : Blank(1, j - 1) /\ (j = N + 1 \/ cand[j] # 32)
LastWord  == CHOOSE j \in 0..N : Blank(j + 1, N) /\ (j = 0 \/ cand[j] # 32)

LeadOf  == CHOOSE l \in 0..M : (\A i \in 1..l : text[i] = 32) /\ (l = M \/ text[l + 1] # 32)
TrailOf == CHOOSE l \in 0..M : (\A i \in (M - l + 1)..M : text[i] = 32) /\ (l = M \/ text[M - l] # 32)

(* The term's spaces are the candidate's last (first) ones. *)
PrefixAt == FirstWord - LeadOf
SuffixAt == LastWord + TrailOf - M + 1

Res(kind) ==
  MatchTerm(cfg, Prep(cfg, cand), [kind |-> kind, inv |-> FALSE, text |-> text])

Is(r, s) == r.ok /\ r.pos = [i \in 1..M |-> s + i - 1]

PrefixHolds ==
  LET r == Res("prefix") IN
  IF Sits(PrefixAt) THEN Is(r, PrefixAt) /\ Blank(1, PrefixAt - 1) ELSE ~r.ok

SuffixHolds ==
  LET r == Res("suffix") IN
  IF Sits(SuffixAt) /\ LastWord + TrailOf <= N
  THEN Is(r, SuffixAt) /\ Blank(SuffixAt + M, N) ELSE ~r.ok

EqualHolds ==
  LET r == Res("equal") IN
  IF Sits(PrefixAt) /\ PrefixAt + M - 1 = LastWord + TrailOf
  THEN Is(r, PrefixAt) /\ Blank(1, PrefixAt - 1) /\ Blank(PrefixAt + M, N)
  ELSE ~r.ok

(* An equal term is a prefix and a suffix one, not conversely. *)
Together == Res("equal").ok => Res("prefix").ok /\ Res("suffix").ok

(* A candidate which is the term itself is matched by all. *)
Itself == cand = text => Res("prefix").ok /\ Res("suffix").ok /\ Res("equal").ok /\ Res("exact").ok

(* What is anchored is contained. *)
Contained == (Res("prefix").ok \/ Res("suffix").ok) => Res("exact").ok /\ Res("fuzzy").ok
=============================================================================
