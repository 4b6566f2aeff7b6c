----------------------------- MODULE MergeTrace -----------------------------
(* Judges merges by the code. A trace is the three documents and the merged  *)
(* one that was written.                                                     *)
EXTENDS LdmlData

VARIABLES tid, verdict
vars == <<tid, verdict>>
T == Traces[tid]

\* comments are sequences of characters here
RECURSIVE Spoken(_)
Spoken(n) == [n EXCEPT !.c = [i \in 1..Len(n.c) |-> Text(n.c[i])], !.e = [i \in 1..Len(n.e) |-> Text(n.e[i])],
                       !.k = [i \in 1..Len(n.k) |-> Spoken(n.k[i])]]
\* a comment can't have two hyphens together nor end in one
RECURSIVE Apart(_)
Apart(s) == IF s = <<>> THEN <<>>
            ELSE IF Head(s) = 45 /\ (Len(s) = 1 \/ s[2] = 45) THEN <<45, 32>> \o Apart(Tail(s))
            ELSE <<Head(s)>> \o Apart(Tail(s))
Q(s) == <<34>> \o s \o <<34>>
\* T.words: Clash:, or, from, Attribute (, ) clash:, None
W(i) == Text(T.words[i])
ClashText(t, o, b) == Apart(W(1) \o Q(NormText_(t)) \o W(2) \o Q(NormText_(o)) \o W(3) \o Q(NormText_(b)))
AttText(x, t, o, b) == Apart(W(4) \o Text(x) \o W(5) \o Q(Text(t)) \o W(2) \o Q(Text(o)) \o W(3)
                             \o Q(IF b = <<>> THEN W(6) ELSE Text(b[1])))

M == INSTANCE Merge WITH ElOrd <- ElOrd_, AtOrd <- AtOrd_, Distinguishing <- Distinguishing_, ValKey <- ValKey_,
  OutName <- OutName_, Serial <- Serial_, DraftRate <- DraftRate_, NormText <- NormText_, N <- Names_,
  Drafts <- T.ud, TheirDels <- T.win, Clash <- ClashText, AttClash <- AttText

SameBag(a, b) == SeqBag(a) = SeqBag(b)
Data ==
  LET m == M!MergeDocs(Spoken(T.this), Spoken(T.other), Spoken(T.base), DefaultDraft(T.this))
      want == Canon(m, T.ud, FALSE)
      got == Seen(Spoken(T.out))
      f == BagDiff(want, got, 0)
  IN IF f # "" THEN f
     ELSE IF ~SameBag(InnerComments(want), InnerComments(got)) \/ ~SameBag(want.c, got.c) THEN "comments differ"
     ELSE ""

Judge == IF T.failed # "" THEN "the code failed: " \o T.failed ELSE Data

TraceInit == tid \in 1..Len(Traces) /\ verdict = ""
TraceNext == /\ verdict = ""
             /\ LET v == Judge
                IN /\ PrintT(<<"VERDICT", tid, IF v = "" THEN "OK" ELSE "BAD", 0, v>>)
                   /\ verdict' = IF v = "" THEN "OK" ELSE "BAD"
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
