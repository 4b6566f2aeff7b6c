------------------------------ MODULE AliasMC ------------------------------
(* Documents with two elements x and y holding leaves, aliases and an        *)
(* element q, resolved one alias at a time in any order                      *)
EXTENDS Alias, TLC, Json
CONSTANTS MaxX, MaxY, Emit
VARIABLES orig, doc

Tag(x) == [up |-> FALSE, g |-> x, a |-> {}]
Up == [up |-> TRUE, g |-> "", a |-> {}]
Leaf(g) == [g |-> g, a |-> {}, t |-> g, k |-> <<>>, p |-> <<>>]
Al(path) == [g |-> "alias", a |-> {}, t |-> "", k |-> <<>>, p |-> path]
El(g, ks) == [g |-> g, a |-> {}, t |-> "", k |-> ks, p |-> <<>>]
\* from x or y, and from below
Paths == {<<Up, Tag("x")>>, <<Up, Tag("y")>>, <<Up, Tag("y"), Tag("q")>>, <<Up, Tag("x"), Tag("q")>>, <<Up>>, <<Up, Tag("n")>>}
In == {Leaf("u")} \cup {Al(<<Up>> \o p) : p \in Paths}
Items == {Leaf("u"), Leaf("v")} \cup {Al(p) : p \in Paths} \cup {El("q", <<n>>) : n \in In}
Seqs(n) == UNION {[1..m -> Items] : m \in 0..n}
Docs == {El("ldml", <<El("x", ks), El("y", ls)>>) : ks \in Seqs(MaxX), ls \in Seqs(MaxY)}

Init == /\ orig \in {d \in Docs : Stable(d)}
        /\ doc = orig
        /\ Emit => PrintT(<<"CASE", ToJson(orig)>>)
Next == doc' \in Steps(doc) /\ UNCHANGED orig
Spec == Init /\ [][Next]_<<orig, doc>> /\ WF_<<orig, doc>>(Next)

\* whatever order they are resolved in, the result is as said, and loops, if there are any, are what remains
Good == Steps(doc) = {} => LET want == Resolved(orig)
                           IN FitsSoFar(want, doc) /\ (HasAlias(doc) <=> AnyLoose(want))
\* and it comes to an end: there is always one alias fewer
Fewer == [][NoAliases(doc') < NoAliases(doc)]_<<orig, doc>>
=============================================================================
