------------------------------ MODULE LdmlData ------------------------------
(* Instantiates LdmlTree over the tables that come with a file of traces.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

File == JsonDeserialize(IOEnv.VF_TRACES)
Traces == File.traces
D == File.data

Lookup(tab, y, dflt) == IF \E i \in 1..Len(tab) : tab[i][1] = y
                        THEN tab[CHOOSE i \in 1..Len(tab) : tab[i][1] = y][2] ELSE dflt
ElOrd_(x, y) == Lookup(D.elord[x], y, 1000)
AtOrd_(x, y) == Lookup(D.atord[x], y, 1000)
Distinguishing_(x, y) == \E i \in 1..Len(D.keys[x]) : D.keys[x][i] = y
ValKey_(x, y, z) == IF \E i \in 1..Len(D.rank[x]) : D.rank[x][i][1] = y /\ D.rank[x][i][2] = z
                    THEN LET i == CHOOSE i \in 1..Len(D.rank[x]) : D.rank[x][i][1] = y /\ D.rank[x][i][2] = z
                         IN <<D.rank[x][i][3], D.rank[x][i][4]>>
                    ELSE <<1, D.low[z]>>
OutName_(a) == D.out[a]
SerialSet == {D.serial[i] : i \in 1..Len(D.serial)}
Serial_(g) == g \in SerialSet
DraftRate_(v) == IF \E i \in 1..Len(D.drafts) : D.drafts[i] = v
                 THEN (CHOOSE i \in 1..Len(D.drafts) : D.drafts[i] = v) - 1 ELSE 5
Names_ == D.names

\* Text as lines without the white space around them, and trimmed as a whole
Blank == {9, 32}
WS == {9, 10, 13, 32}
RECURSIVE LStrip(_, _)
LStrip(s, S) == IF s # <<>> /\ Head(s) \in S THEN LStrip(Tail(s), S) ELSE s
RECURSIVE RStrip(_, _)
RStrip(s, S) == IF s # <<>> /\ s[Len(s)] \in S THEN RStrip(SubSeq(s, 1, Len(s) - 1), S) ELSE s
RECURSIVE Lines(_, _, _)
Lines(s, i, acc) ==         \* removes blanks before and after line breaks
  IF i > Len(s) THEN acc
  ELSE IF s[i] = 10 THEN LET rest == LStrip(SubSeq(s, i + 1, Len(s)), Blank)
                         IN Lines(rest, 1, Append(RStrip(acc, Blank), 10))
  ELSE Lines(s, i + 1, Append(acc, s[i]))
NormSeq(s) == Lines(RStrip(LStrip(s, WS), WS), 1, <<>>)
Text(t) == IF t = 0 THEN <<>> ELSE D.texts[t]
NormTab == [t \in 0..Len(D.texts) |-> NormSeq(Text(t))]
NormText_(t) == NormTab[t]

INSTANCE LdmlTree WITH ElOrd <- ElOrd_, AtOrd <- AtOrd_, Distinguishing <- Distinguishing_, ValKey <- ValKey_,
  OutName <- OutName_, Serial <- Serial_, DraftRate <- DraftRate_, NormText <- NormText_, N <- Names_

\* A document as it was written, its text without what writing adds to it
RECURSIVE Seen(_)
Seen(n) == [n EXCEPT !.t = NormText_(n.t), !.k = [i \in 1..Len(n.k) |-> Seen(n.k[i])]]
=============================================================================
