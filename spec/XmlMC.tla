------------------------------- MODULE XmlMC -------------------------------
(* A process that reads declarations of namespaces, in any order and with    *)
(* any prefixes, then writes any small document in those namespaces: what it *)
(* writes says what was in memory, and its declarations are well placed.     *)
EXTENDS Xml, TLC, Json
CONSTANTS Uris, Prefs, MaxDecl, Emit

VARIABLES ns, hist
vars == <<ns, hist>>

Gen == 100..110
SIL == 50
SILP == 51
\* the registry of a new document has the sil prefix (51) for the sil namespace (50)
Init == ns = <<<<SIL, SILP>>>> /\ hist = <<>>
Next == /\ Len(hist) < MaxDecl
        /\ \E u \in Uris \cup {SIL}, p \in Prefs \cup {0, SILP} :
             /\ ns' = Note(ns, p, u, Gen)
             /\ hist' = Append(hist, <<p, u>>)
        /\ (Emit => PrintT(<<"CASE", ToJson([decls |-> hist'])>>))
Spec == Init /\ [][Next]_vars

OnePrefixEach == \A i, j \in 1..Len(ns) : (ns[i][2] = ns[j][2] => i = j) /\ ns[i][2] # 0
Known == {0} \cup {ns[i][1] : i \in 1..Len(ns)}
E(u, a, k) == [u |-> u, l |-> 1, t |-> 0, a |-> a, k |-> k]
AttrSets == {<<>>} \cup {<<<<u, 7, 1>>>> : u \in Known} \cup {<<<<0, 7, 1>>, <<u, 7, 2>>>> : u \in Known \ {0}}
Docs == {E(u, <<>>, <<E(v, a, <<>>), E(w, <<>>, <<E(u, b, <<>>)>>)>>) : u \in Known, v \in Known, w \in Known, a \in AttrSets, b \in AttrSets}
Faithful == \A d \in Docs, top \in BOOLEAN :
   LET x == Write(d, ns, top, {})
   IN Resolve(x, <<>>) = Plain(d) /\ WellPlaced(x, <<>>, top, TRUE)
=============================================================================
