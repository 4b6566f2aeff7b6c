---------------------------- MODULE RegistryTrace ----------------------------
(* Judges what the code read from a file: types, subtags and fields, each    *)
(* with its values in order and whether they came as a list                  *)
EXTENDS Registry, Json, IOUtils
VARIABLES tid, verdict
vars == <<tid, verdict>>
Traces == JsonDeserialize(IOEnv.VF_TRACES).traces
T == Traces[tid]

Judge ==
  IF T.failed # "" THEN "the code failed: " \o T.failed
  ELSE LET want == Denotes(T.lines)
           got == {[type |-> x.type, subtag |-> x.subtag, fields |-> {<<x.fields[i].f, x.fields[i].v>> : i \in 1..Len(x.fields)}] : x \in ToSet(T.got)}
           keys(S) == {<<x.type, x.subtag>> : x \in S}
       IN CASE keys(want) \ keys(got) # {} -> "a record is missing"
            [] keys(got) \ keys(want) # {} -> "there are other records"
            [] got # want -> "a record has other fields"
            [] \E x \in ToSet(T.got) : \E i \in 1..Len(x.fields) : x.fields[i].list # (Len(x.fields[i].v) > 1) -> "only repeated fields are lists"
            [] OTHER -> ""

TraceInit == tid \in 1..Len(Traces) /\ verdict = ""
TraceNext == /\ verdict = ""
             /\ LET v == Judge
                IN /\ PrintT(<<"VERDICT", tid, IF v = "" THEN "OK" ELSE "BAD", 0, v>>)
                   /\ verdict' = IF v = "" THEN "OK" ELSE "BAD"
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
