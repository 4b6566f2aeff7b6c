--------------------------- MODULE CldrImportTrace ---------------------------
(* Judges imports by the code. A trace is a locale: the parts CLDR has of it, *)
(* what there was of it before in the output and what there was after.        *)
EXTENDS LdmlData

VARIABLES tid, verdict
vars == <<tid, verdict>>
T == Traces[tid]

TypesOf_(v) == LET i == CHOOSE i \in 1..Len(T.types) : T.types[i][1] = v IN {T.types[i][2][j] : j \in 1..Len(T.types[i][2])}
JoinTypes_(v, S) == LET i == CHOOSE i \in 1..Len(T.joins) : T.joins[i][1] = v /\ {T.joins[i][2][j] : j \in 1..Len(T.joins[i][2])} = S
                    IN T.joins[i][3]
W(i) == T.words[i]
FNames == [alias |-> W(1), xres |-> W(2), font |-> W(3), types |-> W(4), collations |-> W(5), collation |-> W(6), modified |-> W(7),
           true |-> W(8), root |-> W(9), script |-> W(10), type |-> W(11), default |-> W(12)]
CNames == [references |-> W(13), source |-> W(14), version |-> W(15), generation |-> W(16), number |-> W(17), date |-> W(18)]
M == INSTANCE CldrImport WITH ElOrd <- ElOrd_, AtOrd <- AtOrd_, Distinguishing <- Distinguishing_, ValKey <- ValKey_,
  OutName <- OutName_, Serial <- Serial_, DraftRate <- DraftRate_, NormText <- NormText_, N <- Names_,
  F <- FNames, C <- CNames, TypesOf <- TypesOf_, JoinTypes <- JoinTypes_, Blocks <- {W(6), Names_.identity}

Differ(want, out) == BagDiff(Canon(want, TRUE, FALSE), Seen(out), 0)
Judge ==
  IF T.hang THEN "didn't end"
  ELSE IF T.fails THEN IF T.reported THEN "" ELSE "a failure not reported"
  ELSE IF T.parts = <<>> THEN       \* not in CLDR
    IF ~T.before THEN IF T.after = "none" THEN "" ELSE "wrote what isn't in CLDR"
    ELSE IF T.remove THEN IF T.after = "none" THEN "" ELSE "not removed"
    ELSE IF T.after = "same" THEN "" ELSE "a file of no concern changed"
  ELSE IF T.reported THEN "reported a failure where there was none"
  ELSE IF T.after = "none" THEN "not imported"
  ELSE IF T.after = "bad" THEN "not well-formed"
  ELSE Differ(M!Imported(T.parts, T.idents, T.revision), T.out)

TraceInit == tid \in 1..Len(Traces) /\ verdict = ""
TraceNext == /\ verdict = ""
             /\ LET v == Judge
                IN /\ PrintT(<<"VERDICT", tid, IF v = "" THEN "OK" ELSE "BAD", 0, v>>)
                   /\ verdict' = IF v = "" THEN "OK" ELSE "BAD"
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
