---------------------------- MODULE FlattenTrace ----------------------------
(* Judges locales flattened and unflattened by the code. A trace is the      *)
(* documents there are with their names, the locale's name and parents, and  *)
(* the documents that were written: flattened, unflattened from that, and    *)
(* flattened again.                                                          *)
EXTENDS LdmlData

VARIABLES tid, verdict
vars == <<tid, verdict>>
T == Traces[tid]

TypesOf_(v) == LET i == CHOOSE i \in 1..Len(T.types) : T.types[i][1] = v IN {T.types[i][2][j] : j \in 1..Len(T.types[i][2])}
JoinTypes_(v, S) == LET i == CHOOSE i \in 1..Len(T.joins) : T.joins[i][1] = v /\ {T.joins[i][2][j] : j \in 1..Len(T.joins[i][2])} = S
                    IN T.joins[i][3]
W(i) == T.words[i]
FNames == [alias |-> W(1), xres |-> W(2), font |-> W(3), types |-> W(4), collations |-> W(5), collation |-> W(6), modified |-> W(7),
           true |-> W(8), root |-> W(9), script |-> W(10), type |-> W(11), default |-> W(12)]
M == INSTANCE Flatten WITH ElOrd <- ElOrd_, AtOrd <- AtOrd_, Distinguishing <- Distinguishing_, ValKey <- ValKey_,
  OutName <- OutName_, Serial <- Serial_, DraftRate <- DraftRate_, NormText <- NormText_, N <- Names_,
  F <- FNames, TypesOf <- TypesOf_, JoinTypes <- JoinTypes_, Blocks <- {W(6), Names_.identity}

Names == {T.names[i] : i \in 1..Len(T.names)}
Docs == [n \in Names |-> T.docs[CHOOSE i \in 1..Len(T.names) : T.names[i] = n]]
Differ(want, out) == BagDiff(Canon(want, TRUE, FALSE), Seen(out), 0)
Changed == {T.changed[i] : i \in 1..Len(T.changed)}
Flat_ ==
  LET docs == Docs
      doc == docs[T.name]
      want == M!Flattened(doc, T.name, T.parents, docs)
      stub == T.stubs /\ (M!Stub(doc) \/ M!Stub(want))
  IN IF T.none THEN IF stub \/ ~M!Affected(doc, T.name, T.parents, docs, Changed) THEN "" ELSE "nothing was done"
     ELSE IF stub THEN "a stub was done"
     ELSE IF ~M!Touched(T.name, T.parents, Changed) THEN "done with nothing changed"
     ELSE Differ(want, T.flat)
RECURSIVE Undrafted(_)
Undrafted(n) == [n EXCEPT !.a = SelectSeq(n.a, LAMBDA p : p[1] # Names_.draft), !.k = [i \in 1..Len(n.k) |-> Undrafted(n.k[i])]]
Unflat ==
  LET docs == Docs
      f == Differ(M!Unflattened(T.flat, T.name, T.parents, docs), T.unflat)
  IN IF f # "" THEN "unflattened: " \o f
     ELSE LET g == BagDiff(Undrafted(Seen(T.flat)), Undrafted(Seen(T.again)), 0) IN IF g # "" THEN "flattened again: " \o g ELSE ""

Judge == IF T.failed # "" THEN "the code failed: " \o T.failed
         ELSE IF T.what = "flat" THEN Flat_ ELSE Unflat

TraceInit == tid \in 1..Len(Traces) /\ verdict = ""
TraceNext == /\ verdict = ""
             /\ LET v == Judge
                IN /\ PrintT(<<"VERDICT", tid, IF v = "" THEN "OK" ELSE "BAD", 0, v>>)
                   /\ verdict' = IF v = "" THEN "OK" ELSE "BAD"
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
