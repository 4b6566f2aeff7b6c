------------------------------ MODULE PathTrace ------------------------------
(* Follows recorded operations on a document. A trace has the document it    *)
(* began with, and for each operation what it returned and the document      *)
(* after, with new elements numbered from the top, and for each element of   *)
(* the last one what the path reported for it finds, all and first. keys are *)
(* the attributes that distinguish the elements, if known.                   *)
EXTENDS Path, Json, IOUtils
VARIABLES tid, line, doc, verdict
vars == <<tid, line, doc, verdict>>
Traces == JsonDeserialize(IOEnv.VF_TRACES).traces
T == Traces[tid]

Decode(d) == [i \in 1..Len(d) |-> [g |-> d[i].g, a |-> ToSet(d[i].a), t |-> d[i].t, k |-> d[i].k, z |-> d[i].z]]
Op(o) == [o EXCEPT !.path = [i \in 1..Len(o.path) |-> [g |-> o.path[i].g, tests |-> ToSet(o.path[i].tests)]]]
(* the same where it is the same tree *)
Same(d, e) == Below(d, 1) = Below(e, 1) /\ \A i \in Below(d, 1) : d[i] = e[i]

RECURSIVE Above(_, _)
Above(d, x) == IF x = 1 THEN <<>> ELSE Append(Above(d, Parent(d, x)), x)
(* whether y is of the same tag as x, and has all that distinguishes that, and so are those above them *)
Alike(d, ks, x, y) == LET a == Above(d, x)
                          b == Above(d, y)
                      IN Len(a) = Len(b) /\ \A i \in 1..Len(a) : /\ d[a[i]].g = d[b[i]].g
                                                                /\ ks[a[i]].known => {p \in d[a[i]].a : p[1] \in ToSet(ks[a[i]].names)} \subseteq d[b[i]].a
JudgeOp(o, got) ==
  LET want == Apply(doc, o)
      new == Decode(got.doc)
      f(s) == s \o " (" \o o.op \o ")"
  IN CASE got.failed # "" -> f("the code failed: " \o got.failed)
       [] got.ids # want.ids -> f(IF Len(got.ids) # Len(want.ids) THEN "another number of elements is returned" ELSE "other elements are returned")
       [] ~Same(new, want.doc) -> f(IF o.op \in {"find", "findall"} THEN "looking changes the document" ELSE "the document becomes another")
       [] OTHER -> ""
JudgeReport ==
  LET bad(r) == \/ ~\E i \in 1..Len(r.all) : r.all[i] = r.id
                \/ \E i \in 1..Len(r.all) : ~Alike(doc, T.keys, r.id, r.all[i])
                \/ r.first # r.all[1]
  IN IF T.reportfailed # "" THEN "reporting a path failed: " \o T.reportfailed
     ELSE IF \E i \in 1..Len(T.report) : bad(T.report[i]) THEN "a path reported for an element doesn't find it, or finds others" ELSE ""

TraceInit == tid \in 1..Len(Traces) /\ line = 1 /\ doc = Decode(Traces[tid].doc) /\ verdict = ""
Say(v) == PrintT(<<"VERDICT", tid, IF v = "" THEN "OK" ELSE "BAD", line, v>>) /\ verdict' = IF v = "" THEN "OK" ELSE "BAD"
TraceNext == /\ verdict = ""
             /\ IF line > Len(T.ops)
                THEN Say(JudgeReport) /\ UNCHANGED <<line, doc>>
                ELSE LET o == Op(T.ops[line])
                         v == JudgeOp(o, T.got[line])
                     IN IF v # "" THEN Say(v) /\ UNCHANGED <<line, doc>>
                        ELSE line' = line + 1 /\ doc' = Apply(doc, o).doc /\ UNCHANGED verdict
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
