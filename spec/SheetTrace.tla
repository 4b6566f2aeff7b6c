------------------------------ MODULE SheetTrace ------------------------------
(* Judges what the code made of a sheet, or filled one in with               *)
EXTENDS Sheet, Json, IOUtils
VARIABLES tid, verdict
vars == <<tid, verdict>>
Traces == JsonDeserialize(IOEnv.VF_TRACES).traces
T == Traces[tid]

D == [v \in {x.v : x \in ToSet(T.says)} |-> CHOOSE x \in ToSet(T.says) : x.v = v]
\* sheets one after the other; tables end with theirs
Rows == FoldLeft(LAMBDA a, b : a \o <<<<>>>> \o b, <<>>, T.sheets)
RECURSIVE Trim(_)
Trim(r) == IF r = <<>> \/ (r # <<>> /\ r[Len(r)] # "") THEN r ELSE Trim(SubSeq(r, 1, Len(r) - 1))
Judge ==
  IF T.failed # "" THEN "the code failed: " \o T.failed
  ELSE IF T.kind = "make"
  THEN LET want == Made(D, Rows)
           got == {<<x.path, x.text>> : x \in ToSet(T.got)}
       IN CASE \E x \in want \ got : x[1] \in {y[1] : y \in got} -> "another text is at a path"
            [] want \ got # {} -> "something in a cell is not at its path"
            [] got \ want # {} -> "there is something that is in no cell"
            [] Len(T.got) # Cardinality(got) -> "something is there twice"
            [] OTHER -> ""
  ELSE LET want == Filled(D, Rows, ToSet(T.doc))
       IN IF Len(T.grid) # Len(want) THEN "rows"
          ELSE IF \E i \in 1..Len(want) : Trim(want[i]) # Trim(T.grid[i]) THEN "a cell is not filled in as the document has it"
          ELSE LET back == {<<x.path, x.text>> : x \in ToSet(T.got)}
               IN IF back # Made(D, want) THEN "the filled in sheet does not give the same back" ELSE ""

TraceInit == tid \in 1..Len(Traces) /\ verdict = ""
TraceNext == /\ verdict = ""
             /\ LET v == Judge
                IN /\ PrintT(<<"VERDICT", tid, IF v = "" THEN "OK" ELSE "BAD", 0, v>>)
                   /\ verdict' = IF v = "" THEN "OK" ELSE "BAD"
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
