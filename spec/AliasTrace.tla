----------------------------- MODULE AliasTrace -----------------------------
(* Judges documents that the code resolved the aliases of. A trace is the    *)
(* document, what became of it, the number of loops reported, and of         *)
(* elements that are in more than one place or don't know their parent.      *)
EXTENDS Alias, Json, IOUtils, TLC
VARIABLES tid, verdict
vars == <<tid, verdict>>
Traces == JsonDeserialize(IOEnv.VF_TRACES).traces
T == Traces[tid]

RECURSIVE Node(_)
Node(j) == [g |-> j.g, a |-> {<<j.a[i][1], j.a[i][2]>> : i \in 1..Len(j.a)}, t |-> j.t, k |-> [i \in 1..Len(j.k) |-> Node(j.k[i])],
            p |-> [i \in 1..Len(j.p) |-> [up |-> j.p[i].up, g |-> j.p[i].g, a |-> {<<j.p[i].a[m][1], j.p[i].a[m][2]>> : m \in 1..Len(j.p[i].a)}]]]

Judge ==
  IF T.failed # "" THEN "the code failed: " \o T.failed
  ELSE LET doc == Node(T.doc)
           got == Node(T.got)
       IN IF ~Stable(doc) THEN "-"
          ELSE LET want == Resolved(doc)
                   loops == AnyLoose(want)
               IN IF ~Fits(want, got) THEN "not what the aliases point to"
                  ELSE IF loops /\ T.reports = 0 THEN "a loop isn't reported"
                  ELSE IF ~loops /\ T.reports # 0 THEN "a loop is reported where there is none"
                  ELSE IF T.shared # 0 THEN "elements in several places"
                  ELSE ""

TraceInit == tid \in 1..Len(Traces) /\ verdict = ""
TraceNext == /\ verdict = ""
             /\ LET v == Judge
                IN /\ PrintT(<<"VERDICT", tid, IF v \in {"", "-"} THEN "OK" ELSE "BAD", 0, v>>)
                   /\ verdict' = IF v \in {"", "-"} THEN "OK" ELSE "BAD"
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
