---------------------------- MODULE ImportsTrace ----------------------------
(* Judges collations flattened by the code. A trace is the rules of all      *)
(* locales there are, the locale, its collations before, and after.          *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES tid, verdict
vars == <<tid, verdict>>
Traces == JsonDeserialize(IOEnv.VF_TRACES).traces
T == Traces[tid]

Second(pairs, x) == IF \E i \in 1..Len(pairs) : pairs[i][1] = x THEN pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = x][2] ELSE x
LocaleOf_(l) == Second(T.locales, l)
TypeOf_(t) == IF t = "" THEN "standard" ELSE IF t = "phonebk" THEN "phonebook" ELSE t
M == INSTANCE Imports WITH LocaleOf <- LocaleOf_, TypeOf <- TypeOf_

Func(pairs) == [x \in {pairs[i][1] : i \in 1..Len(pairs)} |-> Second(pairs, x)]
Judge ==
  IF T.failed # "" THEN "the code failed: " \o T.failed
  ELSE LET own == Func(T.own)
           got == Func(T.got)
           rules == [l \in {T.rules[i][1] : i \in 1..Len(T.rules)} |-> Func(Second(T.rules, l))]
           want == [t \in DOMAIN own |-> M!Expand(own[t], rules, own, T.name, {})]
           bad == {t \in DOMAIN own : ~want[t].cyclic /\ (t \notin DOMAIN got \/ got[t] # want[t].text)}
       IN IF DOMAIN got # DOMAIN own THEN "other collations"
          ELSE IF bad # {} THEN "not the rules imported"
          ELSE IF \A t \in DOMAIN own : want[t].cyclic THEN "-" ELSE ""

TraceInit == tid \in 1..Len(Traces) /\ verdict = ""
TraceNext == /\ verdict = ""
             /\ LET v == Judge
                IN /\ PrintT(<<"VERDICT", tid, IF v \in {"", "-"} THEN "OK" ELSE "BAD", 0, v>>)
                   /\ verdict' = IF v \in {"", "-"} THEN "OK" ELSE "BAD"
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
