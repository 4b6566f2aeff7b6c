------------------------------- MODULE PathMC -------------------------------
(* Every sequence of up to MaxOps operations on two small documents          *)
EXTENDS Path, Json
CONSTANTS MaxOps, Texts, Emit
VARIABLES orig, doc, ops, last
vars == <<orig, doc, ops, last>>

E(g, a, k) == [g |-> g, a |-> a, t |-> "", k |-> k, z |-> <<>>]
Docs == { <<E("ldml", {}, <<2, 3, 5>>), E("a", {<<"t", "1">>}, <<>>), E("a", {<<"t", "2">>, <<"s", "1">>}, <<4>>), E("b", {}, <<>>), E("b", {<<"t", "2">>}, <<6, 7>>),
            E("a", {}, <<>>), E("a", {<<"t", "1">>}, <<>>)>>,
          <<E("ldml", {}, <<>>)>> }
Test(k, v) == [k |-> k, v |-> v, has |-> FALSE]
Has(k) == [k |-> k, v |-> "", has |-> TRUE]
S(g, tests) == [g |-> g, tests |-> tests]
Steps == {S("a", {}), S("a", {Test("t", "1")}), S("a", {Test("t", "2"), Test("s", "1")}), S("b", {}), S("b", {Test("t", "")}), S("a", {Has("t")})}
Paths == {<<x>> : x \in Steps} \cup {<<x, y>> : x \in Steps, y \in Steps} \cup {<<S(".", {}), S("b", {})>>}
Ops(d) == {[op |-> o, base |-> 1, path |-> p, text |-> x, draft |-> "", before |-> b, md |-> "", alt |-> ""] :
             o \in {"ensure", "remove"}, p \in Paths, x \in Texts, b \in {"", "a"}}
Usual(o) == IF o.op = "ensure" THEN Definite(o.path) /\ (IF o.before = "" THEN TRUE ELSE o.path[Len(o.path)].g = "b") ELSE o.text = "" /\ o.before = ""

Init == orig \in Docs /\ doc = orig /\ ops = <<>> /\ last = [doc |-> orig, ids |-> <<>>]
Next == /\ Len(ops) < MaxOps
        /\ \E o \in Ops(doc) : /\ Usual(o) = TRUE
                               /\ LET r == Apply(doc, o) IN doc' = r.doc /\ last' = [doc |-> doc, ids |-> r.ids]
                               /\ ops' = Append(ops, o)
        /\ UNCHANGED orig
Spec == Init /\ [][Next]_vars

O == ops[Len(ops)]
Without(o) == [o EXCEPT !.text = ""]
(* once ensured a path is found, and ensuring it again does nothing *)
Once == (ops # <<>> /\ O.op = "ensure") =>
          /\ last.ids # <<>>
          /\ Apply(doc, O) = [ids |-> last.ids, doc |-> doc]
          /\ ToSet(last.ids) \subseteq ToSet(Select(doc, 1, O.path))
          /\ (O.text = "" => last.ids = Select(doc, 1, O.path))
(* nothing is lost or moved by it, and no more is added than there are steps *)
Safe == (ops # <<>> /\ O.op = "ensure") =>
          \A i \in 1..Len(last.doc) : /\ doc[i] = [last.doc[i] EXCEPT !.k = doc[i].k]
                                      /\ SelectSeq(doc[i].k, LAMBDA c : c <= Len(last.doc)) = last.doc[i].k
Sparing == (ops # <<>> /\ O.op = "ensure") => Len(doc) - Len(last.doc) <= Len(O.path) /\ (Select(last.doc, 1, O.path) # <<>> /\ O.text = "" => doc = last.doc)
(* what was found is gone, with what was below it, and nothing else *)
Gone == (ops # <<>> /\ O.op = "remove") =>
          /\ Select(doc, 1, O.path) = <<>>
          /\ Below(doc, 1) = Below(last.doc, 1) \ UNION {Below(last.doc, last.ids[i]) : i \in 1..Len(last.ids)}
Tree == \A i, j \in Below(doc, 1) : i # j => ToSet(doc[i].k) \cap ToSet(doc[j].k) = {}
Out == (Emit /\ Len(ops) = MaxOps) => PrintT(<<"CASE", ToJson([doc |-> orig, ops |-> ops])>>)
=============================================================================
