------------------------------ MODULE XmlTrace ------------------------------
(* Judges what a process wrote, document after document. Each step has what *)
(* was in memory (mem), what was written (raw) and how, and whether a new    *)
(* process writes the same for that document alone.                          *)
EXTENDS Xml, TLC, Json, IOUtils
File == JsonDeserialize(IOEnv.VF_TRACES)
Traces == File.traces
D == File.data

VARIABLES tid, l, verdict
vars == <<tid, l, verdict>>
T == Traces[tid]

Blank == {9, 32}
WS == {9, 10, 13, 32}
RECURSIVE LStrip(_, _)
LStrip(s, S) == IF s # <<>> /\ Head(s) \in S THEN LStrip(Tail(s), S) ELSE s
RECURSIVE RStrip(_, _)
RStrip(s, S) == IF s # <<>> /\ s[Len(s)] \in S THEN RStrip(SubSeq(s, 1, Len(s) - 1), S) ELSE s
RECURSIVE Lines(_, _, _)
Lines(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] = 10 THEN Lines(LStrip(SubSeq(s, i + 1, Len(s)), Blank), 1, Append(RStrip(acc, Blank), 10))
  ELSE Lines(s, i + 1, Append(acc, s[i]))
NormSeq(s) == Lines(RStrip(LStrip(s, WS), WS), 1, <<>>)
NormTab == [t \in 1..Len(D.texts) |-> NormSeq(D.texts[t])]
NT(t) == IF t = 0 THEN <<>> ELSE NormTab[t]
RECURSIVE Texts(_)
Texts(n) == [n EXCEPT !.t = IF Len(n.k) > 0 THEN NT(0) ELSE NT(n.t), !.k = [i \in 1..Len(n.k) |-> Texts(n.k[i])]]
RECURSIVE RawTexts(_)
RawTexts(n) == [n EXCEPT !.t = NT(n.t), !.k = [i \in 1..Len(n.k) |-> RawTexts(n.k[i])]]

RECURSIVE Undeclared(_, _)
Undeclared(n, env0) == LET env == Enter(env0, n)
                       IN \/ \E p \in Uses(n) : UriOf(env, p) = -1
                          \/ \E i \in 1..Len(n.k) : Undeclared(n.k[i], env)
RECURSIVE Clash(_)
Clash(r) == \/ \E x, y \in r.a : x # y /\ x[1] = y[1] /\ x[2] = y[2]
            \/ \E i \in 1..Len(r.k) : Clash(r.k[i])

\* text of the elements that take it is in CDATA, and of no others
RECURSIVE CDataOK(_, _)
CDataOK(n, S) ==
  /\ n.k = <<>> /\ n.t # 0 => (n.cd <=> <<n.p, n.l>> \in S)
  /\ \A i \in 1..Len(n.k) : CDataOK(n.k[i], S)

\* a comment can't have two hyphens together nor end in one
RECURSIVE Apart(_)
Apart(s) == IF s = <<>> THEN <<>>
            ELSE IF Head(s) = 45 /\ (Len(s) = 1 \/ s[2] = 45) THEN <<45, 32>> \o Apart(Tail(s))
            ELSE <<Head(s)>> \o Apart(Tail(s))
Said(s) == [i \in 1..Len(s) |-> IF s[i] = 0 THEN <<>> ELSE D.texts[s[i]]]

SeqSet(s) == {s[i] : i \in 1..Len(s)}
Bag(s) == [x \in SeqSet(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

RECURSIVE Diff(_, _)
Diff(x, y) == IF x.u # y.u \/ x.l # y.l THEN "different element"
              ELSE IF x.a # y.a THEN "different attributes"
              ELSE IF x.t # y.t THEN "different text"
              ELSE IF Len(x.k) # Len(y.k) THEN "different children"
              ELSE IF \A i \in 1..Len(x.k) : x.k[i] = y.k[i] THEN ""
              ELSE LET i == CHOOSE i \in 1..Len(x.k) : x.k[i] # y.k[i] IN Diff(x.k[i], y.k[i])

Fault(s) ==
  IF s.failed # "" THEN s.failed
  ELSE IF Undeclared(s.raw, D.xmlenv) THEN "an undeclared prefix"
  ELSE LET r == Resolve(RawTexts(s.raw), D.xmlenv)
           m == Plain(Texts(s.mem))
       IN IF Clash(r) THEN "two attributes with the same name"
          ELSE IF r # m THEN Diff(m, r)
          ELSE IF Bag([i \in 1..Len(s.com) |-> Apart(Said(s.com)[i])]) # Bag(Said(s.rawcom)) THEN "different comments"
          ELSE IF ~WellPlaced(s.raw, D.xmlenv, s.top, TRUE) THEN "a namespace declared in the wrong place"
          ELSE IF ~CDataOK(s.raw, IF s.docdata THEN SeqSet(D.cdata) ELSE {}) THEN "CDATA in the wrong place"
          ELSE IF ~s.alone THEN "written differently on its own"
          ELSE ""

TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ verdict = ""
Say(v, c) == PrintT(<<"VERDICT", tid, v, l, c>>) /\ verdict' = v /\ UNCHANGED tid
TraceNext ==
  /\ verdict = ""
  /\ IF l > Len(T.steps) THEN Say("OK", "") /\ UNCHANGED l
     ELSE LET f == Fault(T.steps[l])
          IN IF f = "" THEN l' = l + 1 /\ UNCHANGED <<tid, verdict>> ELSE Say("BAD", f) /\ UNCHANGED l
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
