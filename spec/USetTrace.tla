----------------------------- MODULE USetTrace ------------------------------
(* Judges what the code makes of set expressions. Traces are of reading:     *)
(* tokens, and the set read, whether negated and its members; of writing:    *)
(* strings, the tokens of what was written for them, and what was read of    *)
(* that; or of flattening: expressions and the strings.                      *)
EXTENDS USet, Json, IOUtils, TLC
VARIABLES tid, verdict
vars == <<tid, verdict>>
Traces == JsonDeserialize(IOEnv.VF_TRACES).traces
T == Traces[tid]

Range(s) == {s[i] : i \in 1..Len(s)}
\* what was read, of the universe
Got(r, U) == IF r.neg THEN U \ Range(r.members) ELSE Range(r.members)
Normal(x) == IF \E i \in 1..Len(T.normal) : T.normal[i][1] = x THEN T.normal[CHOOSE i \in 1..Len(T.normal) : T.normal[i][1] = x][2] ELSE x
Judge ==
  IF T.failed # "" THEN "the code failed: " \o T.failed
  ELSE CASE T.what = "read" ->
              LET U == Universe(T.ts)
                  want == Denotes(T.ts, U)
              IN IF want = U THEN "-"       \* there is no set of everything
                 ELSE IF ~(Range(T.got.members) \subseteq U) THEN "members it doesn't mention"
                 ELSE IF Got(T.got, U) # want THEN "another set" ELSE ""
         [] T.what = "write" ->
              IF Denotes(T.ts, Universe(T.ts)) # Range(T.strings) THEN "written as another set"
              ELSE IF T.got.neg \/ Range(T.got.members) # Range(T.strings) THEN "not read back" ELSE ""
         [] T.what = "flatten" ->
              LET sets == [i \in 1..Len(T.sets) |-> Denotes(T.sets[i], Universe(T.sets[i]))]
              IN IF \E i \in 1..Len(sets) : Other \in sets[i] \/ sets[i] = {} THEN "-"
                 ELSE IF Range(T.strings) # Product([i \in 1..Len(sets) |-> {Normal(x) : x \in sets[i]}]) THEN "other strings" ELSE ""

TraceInit == tid \in 1..Len(Traces) /\ verdict = ""
TraceNext == /\ verdict = ""
             /\ LET v == Judge
                IN /\ PrintT(<<"VERDICT", tid, IF v \in {"", "-"} THEN "OK" ELSE "BAD", 0, v>>)
                   /\ verdict' = IF v \in {"", "-"} THEN "OK" ELSE "BAD"
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
