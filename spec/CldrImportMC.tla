---------------------------- MODULE CldrImportMC ----------------------------
(* Importing a locale of two or three parts beside another one, in every    *)
(* order, over what is there from an earlier import.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxVal, Parts, Emit

\* tags: 1 root 2 leaf 3 container 4 5 leaves; 9 identity 11 version 97 special 99 sil:identity; attributes: 70 references 71 source
El(x, y) == y
AtO(x, y) == y
Decl(x, y) == FALSE
VK(x, y, z) == <<1, z>>
Out(a) == a
Ser(g) == FALSE
DR(v) == v
NT(t) == t
Names == [draft |-> 50, alt |-> 51, silidentity |-> 99, identity |-> 9, special |-> 97, arrow |-> 96, unconfirmed |-> 3]
FNames == [alias |-> 60, xres |-> 61, font |-> 62, types |-> 63, collations |-> 6, collation |-> 7, modified |-> 64, true |-> 65,
           root |-> 66, script |-> 10, type |-> 30, default |-> 67]
CNames == [references |-> 70, source |-> 71, version |-> 11, generation |-> 12, number |-> 72, date |-> 73]
Ty(v) == {v}
Jo(v, S) == CHOOSE x \in S : TRUE
INSTANCE CldrImport WITH ElOrd <- El, AtOrd <- AtO, Distinguishing <- Decl, ValKey <- VK, OutName <- Out,
  Serial <- Ser, DraftRate <- DR, NormText <- NT, N <- Names, F <- FNames, C <- CNames, TypesOf <- Ty, JoinTypes <- Jo, Blocks <- {9, 7}

Nd(g, a, t, k) == [g |-> g, a |-> a, t |-> t, k |-> k, c |-> <<>>, e |-> <<>>, z |-> <<>>]
Ref(w) == IF w.r = 1 THEN <<<<70, 1>>>> ELSE <<>>
Leaf(g, v, w) == IF v = 0 THEN <<>> ELSE <<Nd(g, Ref(w), v, <<>>)>>
Doc(w) == Nd(1, <<>>, 0, (IF w.id = 0 THEN <<>> ELSE <<Nd(9, <<>>, 0, Leaf(11, w.id, w))>>)
                         \o Leaf(2, w.l, w) \o (IF w.x + w.y = 0 THEN <<>> ELSE <<Nd(3, Ref(w), 0, Leaf(4, w.x, w) \o Leaf(5, w.y, w))>>))
V == 0..MaxVal
None == [l |-> -1]
Some == [l : V, x : V, y : V, r : {0, 1}, id : {0, 1}]
Nothing == <<>>
Old == <<Nd(1, <<>>, 77, <<>>)>>

VARIABLES src,      \* the first locale's parts
  fail,             \* whether the second one fails
  remove,           \* whether what CLDR doesn't have is removed
  out,              \* locale -> file, <<>> if there is none; "c" isn't in CLDR
  todo, failed
vars == <<src, fail, remove, out, todo, failed>>
Given == SelectSeq(src, LAMBDA w : w # None)
Docs == [i \in 1..Len(Given) |-> Doc(Given[i])]
Locales == IF Given = <<>> THEN {"b"} ELSE {"a", "b"}
B == Doc([l |-> 1, x |-> 0, y |-> 0, r |-> 1, id |-> 1])
Init == /\ src \in [1..Parts -> Some \cup {None}] /\ \A i \in 3..Parts : src[i] # None => src[i].id = 1
        /\ fail \in BOOLEAN /\ remove \in BOOLEAN
        /\ \E o \in {Nothing, Old} : out = [a |-> o, b |-> o, c |-> o]
        /\ todo = Locales /\ failed = {}
        /\ (Emit /\ ~fail /\ ~remove /\ out["a"] = Nothing => PrintT(<<"CASE", ToJson([parts |-> src])>>))
Import(l) == /\ l \in todo
             /\ todo' = todo \ {l}
             /\ IF l = "b" /\ fail THEN failed' = failed \cup {l} /\ UNCHANGED out
                ELSE out' = [out EXCEPT ![l] = <<Imported(IF l = "a" THEN Docs ELSE <<B>>, <<<<71, 1>>>>, <<>>)>>] /\ UNCHANGED failed
             /\ UNCHANGED <<src, fail, remove>>
Remove == /\ todo = {} /\ remove
          /\ \E l \in {"a", "b", "c"} \ Locales : out[l] # Nothing /\ out' = [out EXCEPT ![l] = Nothing]
          /\ UNCHANGED <<src, fail, remove, todo, failed>>
Next == (\E l \in Locales : Import(l)) \/ Remove
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Kid(n, g) == LET I == {i \in 1..Len(n.k) : n.k[i].g = g} IN IF I = {} THEN Nd(0, <<>>, 0, <<>>) ELSE n.k[CHOOSE i \in I : TRUE]
First(f(_)) == LET I == {i \in 1..Len(Given) : f(Given[i]) # 0} IN IF I = {} THEN 0 ELSE f(Given[CHOOSE i \in I : \A j \in I : i <= j])
RECURSIVE Refs(_)
Refs(n) == HasAt(n, 70) \/ \E i \in 1..Len(n.k) : Refs(n.k[i])
Ended == todo = {} /\ ~ENABLED Remove
\* what a finished import must be like, in terms of the values alone
Good ==
  Ended =>
    /\ "a" \in Locales =>
         LET d == out["a"][1]
         IN /\ Assert(Kid(d, 2).t = First(LAMBDA w : w.l), <<"Leaf", src>>)
            /\ Assert(Kid(Kid(d, 3), 4).t = First(LAMBDA w : w.x) /\ Kid(Kid(d, 3), 5).t = First(LAMBDA w : w.y), <<"Container", src>>)
            /\ Assert(Kid(Kid(d, 9), 11).t = Given[1].id, <<"Identity", src>>)       \* of the first part
            /\ Assert(At(Kid(Kid(Kid(d, 9), 97), 99), 71) = 1, <<"Marked", src>>)
            /\ Assert(~Refs(d), <<"References", src>>)
    /\ Assert(fail = ("b" \in failed) /\ "a" \notin failed, <<"Failures", src>>)
    /\ Assert(\A l \in {"a", "b", "c"} \ Locales : remove => out[l] = Nothing, <<"Removed", src>>)
Kept == [][\A l \in {"a", "b", "c"} : out'[l] # out[l] => l \in Locales \/ remove]_vars
Ends == <>Ended
=============================================================================
