----------------------------- MODULE LangTagTrace -----------------------------
(* Judges what the code made of a tag ("tag"), or of a file of lists of      *)
(* equivalent tags ("lists"). A list trace has the lists as they are in the  *)
(* file, and for each tag looked up its list, the number of the entry that   *)
(* it gave (the same number for the same object) and the full form of that   *)
EXTENDS LangTag, Json, IOUtils
VARIABLES tid, verdict
vars == <<tid, verdict>>
Traces == JsonDeserialize(IOEnv.VF_TRACES).traces
T == Traces[tid]

ExtSet(exts) == {<<exts[i].s, exts[i].subs>> : i \in 1..Len(exts)}
GotIs(g, st) ==
  LET f == Full(st) IN
  CASE g.lang # Joined(st.lang) -> "another language"
    [] g.script # (IF st.script = <<>> THEN <<>> ELSE Title(st.script)) -> "another script"
    [] g.region # Caps(st.region) -> "another region"
    [] g.variants # st.variants -> "other variants"
    [] ExtSet(g.exts) # ExtSet(st.exts) -> "other extensions"
    [] g.full # Joined(f) -> "the full form isn't the canonical tag"
    [] g.short # g.full -> "something is hidden"
    [] OTHER -> ""

JudgeTag ==
  LET sts == ReadTag(T.tag) IN
  IF sts = {} THEN "-"
  ELSE LET st == CHOOSE s \in sts : TRUE
           a == GotIs(T.got[1], st)
           b == GotIs(T.got[2], CHOOSE s \in ReadTag(Joined(Full(st))) : TRUE)
       IN IF a # "" THEN a ELSE IF b # "" THEN b \o ", when read back" ELSE ""

JudgeLists ==
  LET n == Len(T.looked)
      pairs == {<<T.looked[i].list, T.looked[i].entry>> : i \in 1..n}
      last(i) == T.lists[i][Len(T.lists[i])]
  IN CASE \E i \in 1..n : T.looked[i].entry = 0 -> "a tag isn't there"
       [] Cardinality(pairs) > Cardinality({p[1] : p \in pairs}) -> "equivalent tags have different entries"
       [] Cardinality(pairs) > Cardinality({p[2] : p \in pairs}) -> "tags of different lists have the same entry"
       [] \E i \in 1..n : \E st \in ReadTag(last(T.looked[i].list)) : T.looked[i].full # Joined(Full(st)) -> "the full form isn't the last of the list"
       [] OTHER -> ""

Judge == IF T.failed # "" THEN "the code failed: " \o T.failed
         ELSE IF T.kind = "tag" THEN JudgeTag ELSE JudgeLists

TraceInit == tid \in 1..Len(Traces) /\ verdict = ""
TraceNext == /\ verdict = ""
             /\ LET v == Judge
                IN /\ PrintT(<<"VERDICT", tid, IF v \in {"", "-"} THEN "OK" ELSE "BAD", 0, v>>)
                   /\ verdict' = IF v \in {"", "-"} THEN "OK" ELSE "BAD"
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
