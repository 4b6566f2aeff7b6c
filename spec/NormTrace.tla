----------------------------- MODULE NormTrace -----------------------------
(* Judges documents that were read and written by the code. A trace is an   *)
(* input document, what it was written as, whether that was written the     *)
(* same again, and whether documents meaning the same were written the same *)
EXTENDS LdmlData

VARIABLES tid, verdict
vars == <<tid, verdict>>
T == Traces[tid]

\* multi-line text is indented by its depth when written
RECURSIVE Tabs(_)
Tabs(d) == IF d = 0 THEN <<>> ELSE <<9>> \o Tabs(d - 1)
RECURSIVE Indent(_, _)
Indent(s, d) == IF s = <<>> THEN <<>>
                ELSE IF Head(s) = 10 THEN <<10>> \o Tabs(d) \o Indent(Tail(s), d) ELSE <<Head(s)>> \o Indent(Tail(s), d)
InSet(x, s) == \E i \in 1..Len(s) : s[i] = x
RECURSIVE Untidy(_, _)
Untidy(n, d) ==
  \/ n.k = <<>> /\ Text(n.t) # Indent(NormText_(n.t), d) /\ ~InSet(n.g, T.cdata)
  \/ \E i \in 1..Len(n.k) : Untidy(n.k[i], d + 1)

Draft(root) == DefaultDraft(root)
Order == LET f == OrderFault(T.out, Draft(T.out), T.ud)
         IN IF f # "" THEN f
            ELSE IF Untidy(T.out, 0) THEN "text not tidied"
            ELSE IF ~T.same THEN "written differently the second time"
            ELSE IF \E i \in 1..Len(T.variants) : ~T.variants[i] THEN "an equivalent document written differently"
            ELSE ""

SameBag(a, b) == SeqBag(a) = SeqBag(b)
Data == LET want == Canon(T.in, T.ud, T.up)
            got == Seen(T.out)
            f == BagDiff(want, got, 0)
        IN IF f # "" THEN f
           ELSE IF ~SameBag(InnerComments(want), InnerComments(got)) \/ ~SameBag(want.c, got.c) \/ ~SameBag(T.post, T.outpost)
           THEN "comments differ"
           ELSE ""

Judge == IF T.failed # "" THEN "the code failed: " \o T.failed
         ELSE IF T.what = "order" THEN Order ELSE Data

TraceInit == tid \in 1..Len(Traces) /\ verdict = ""
TraceNext == /\ verdict = ""
             /\ LET v == Judge
                IN /\ PrintT(<<"VERDICT", tid, IF v = "" THEN "OK" ELSE "BAD", 0, v>>)
                   /\ verdict' = IF v = "" THEN "OK" ELSE "BAD"
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
