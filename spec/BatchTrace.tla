----------------------------- MODULE BatchTrace -----------------------------
(* Judges finished runs over a set of locales. Outputs are numbers, 0 if    *)
(* there is none, the number of what the locale gives alone being known.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

File == JsonDeserialize(IOEnv.VF_TRACES)
Traces == File.traces
VARIABLES tid, verdict
vars == <<tid, verdict>>
T == Traces[tid]

L == 1..Len(T.alone)        \* locales
Mine(l) == \E i \in 1..Len(T.asked) : T.asked[i] = l
Bad == IF T.hang THEN "didn't end"
       ELSE IF \E l \in L : Mine(l) /\ T.fails[l] = "no" /\ T.wrote[l] # T.alone[l] THEN "written differently than alone"
       ELSE IF \E l \in L : Mine(l) /\ T.fails[l] # "no" /\ ~T.reported[l] THEN "a failure not reported"
       ELSE IF \E l \in L : Mine(l) /\ T.fails[l] = "no" /\ T.alone[l] # 0 /\ T.reported[l] THEN "reported a failure where there was none"
       ELSE IF \E l \in L : ~Mine(l) /\ T.wrote[l] # 0 THEN "wrote what wasn't asked for"
       ELSE IF T.others # 0 THEN "wrote something else"
       ELSE ""
TraceInit == tid \in 1..Len(Traces) /\ verdict = ""
TraceNext == /\ verdict = ""
             /\ PrintT(<<"VERDICT", tid, IF Bad = "" THEN "OK" ELSE "BAD", 0, Bad>>)
             /\ verdict' = IF Bad = "" THEN "OK" ELSE "BAD"
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
