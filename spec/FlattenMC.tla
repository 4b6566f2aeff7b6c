----------------------------- MODULE FlattenMC -----------------------------
(* A locale, its parent and the root, each there or not, with every small   *)
(* content: a leaf, a container of two, a collation, and a script.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxVal, Emit

\* tags: 1 root 2 leaf 3 container 4 5 leaves 6 collations 7 collation 8 defaultCollation; 9 identity 10 script
El(x, y) == y
AtO(x, y) == y
Decl(x, y) == y = 30
VK(x, y, z) == <<1, z>>
Out(a) == a
Ser(g) == FALSE
DR(v) == v
NT(t) == t
Names == [draft |-> 50, alt |-> 51, silidentity |-> 99, identity |-> 9, special |-> 97, arrow |-> 96, unconfirmed |-> 3]
FNames == [alias |-> 60, xres |-> 61, font |-> 62, types |-> 63, collations |-> 6, collation |-> 7, modified |-> 64, true |-> 65,
           root |-> 66, script |-> 10, type |-> 30, default |-> 67]
Ty(v) == {v}
Jo(v, S) == CHOOSE x \in S : TRUE
INSTANCE Flatten WITH ElOrd <- El, AtOrd <- AtO, Distinguishing <- Decl, ValKey <- VK, OutName <- Out,
  Serial <- Ser, DraftRate <- DR, NormText <- NT, N <- Names, F <- FNames, TypesOf <- Ty, JoinTypes <- Jo, Blocks <- {9, 7}

Nd(g, a, t, k) == [g |-> g, a |-> a, t |-> t, k |-> k, c |-> <<>>, e |-> <<>>, z |-> <<>>]
Leaf(g, v) == IF v = 0 THEN <<>> ELSE <<Nd(g, <<>>, v, <<>>)>>
\* the collations are of types 1 and 2
Coll(w) == LET cs == (IF w.c1 = 0 THEN <<>> ELSE <<Nd(7, <<<<30, 1>>>>, w.c1, <<>>)>>)
                     \o Leaf(8, w.d)
                     \o (IF w.c2 = 0 THEN <<>> ELSE <<Nd(7, <<<<30, 2>>>>, w.c2, <<>>)>>)
           IN IF cs = <<>> THEN <<>> ELSE <<Nd(6, <<>>, 0, cs)>>
Doc(w) == Nd(1, <<>>, 0, <<Nd(9, <<>>, 0, Leaf(11, w.id) \o IF w.s = 0 THEN <<>> ELSE <<Nd(10, <<<<30, w.s>>>>, 0, <<>>)>>)>>
                         \o Leaf(2, w.l) \o (IF w.x + w.y = 0 THEN <<>> ELSE <<Nd(3, <<>>, 0, Leaf(4, w.x) \o Leaf(5, w.y))>>)
                         \o Coll(w))
V == 0..MaxVal
Items(S) == [l : V, x : {0}, y : {0}, c1 : {0}, c2 : {0}, d : {0}, id : {0, 1}, s : S]
            \cup [l : {0}, x : V, y : V, c1 : {0}, c2 : {0}, d : {0}, id : {1}, s : S]
            \cup [l : {0}, x : {0}, y : {0}, c1 : V, c2 : 0..1, d : 0..1, id : {1}, s : S]
None == [l |-> -1]
VARIABLES w, p, r      \* the locale's, the parent's and the root's
Kind(z) == IF z = None THEN 0 ELSE IF z.l > 0 THEN 1 ELSE IF z.x + z.y > 0 THEN 2 ELSE IF z.c1 + z.c2 + z.d > 0 THEN 3 ELSE 0
Init == /\ w \in Items({0, 1}) /\ p \in Items({0, 1, 2}) \cup {None} /\ r \in Items({0}) \cup {None}
        \* the same kind of item, as kinds don't interact
        /\ \A a, b \in {Kind(w), Kind(p), Kind(r)} : a = b \/ a = 0 \/ b = 0
        /\ (Emit => PrintT(<<"CASE", ToJson([w |-> w, p |-> p, r |-> r])>>))
Next == UNCHANGED <<w, p, r>>
Spec == Init /\ [][Next]_<<w, p, r>>

Me == <<100, 101>>
Docs == [n \in {Me} \cup (IF p = None THEN {} ELSE {<<100>>}) \cup (IF r = None THEN {} ELSE {Root}) |->
          Doc(IF n = Me THEN w ELSE IF n = Root THEN r ELSE p)]
Sub(n, g, ty) == LET I == {i \in 1..Len(n.k) : n.k[i].g = g /\ At(n.k[i], 30) = ty} IN IF I = {} THEN Nd(0, <<>>, 0, <<>>) ELSE n.k[CHOOSE i \in I : TRUE]
Val(d, f) == CASE f = "l" -> Sub(d, 2, 0).t [] f = "x" -> Sub(Sub(d, 3, 0), 4, 0).t [] f = "y" -> Sub(Sub(d, 3, 0), 5, 0).t
               [] f = "c1" -> Sub(Sub(d, 6, 0), 7, 1).t [] f = "c2" -> Sub(Sub(d, 6, 0), 7, 2).t [] f = "d" -> Sub(Sub(d, 6, 0), 8, 0).t [] f = "id" -> Sub(Sub(d, 9, 0), 11, 0).t
Wv(z, f) == CASE f = "l" -> z.l [] f = "x" -> z.x [] f = "y" -> z.y [] f = "c1" -> z.c1 [] f = "c2" -> z.c2 [] f = "d" -> z.d [] f = "id" -> z.id
PThere == p # None /\ (p.s = 0 \/ p.s = w.s)
RThere == r # None
Nearest(f) == IF Wv(w, f) # 0 THEN Wv(w, f) ELSE IF PThere /\ Wv(p, f) # 0 THEN Wv(p, f) ELSE IF RThere THEN Wv(r, f) ELSE 0
\* collations are inherited all together
HasC(z) == z.c1 + z.c2 + z.d > 0
Colls == IF HasC(w) THEN w ELSE IF PThere /\ HasC(p) THEN p ELSE IF RThere THEN r ELSE w
Good ==
  LET f == Flattened(Docs[Me], Me, <<>>, Docs)
      u == Unflattened(f, Me, <<>>, Docs)
      near == IF PThere THEN p ELSE IF RThere THEN r ELSE [l |-> 0, x |-> 0, y |-> 0, d |-> 0]
  IN /\ Assert(\A q \in {"l", "x", "y", "d"} : Val(f, q) = Nearest(q), <<"Nearest", w, p, r>>)
     /\ Assert(\A q \in {"c1", "c2"} : Val(f, q) = Wv(Colls, q), <<"Collations", w, p, r>>)
     /\ Assert(Val(f, "id") = w.id /\ Val(u, "id") = w.id, <<"Identity", w, p, r>>)
     /\ Assert(Says(Flattened(u, Me, <<>>, Docs)) = Says(f), <<"Restored", w, p, r>>)
     /\ Assert(Says(Flattened(f, Me, <<>>, Docs)) = Says(f), <<"Idempotent", w, p, r>>)
     /\ Assert(\A q \in {"l", "x", "y", "d"} : Val(u, q) = (IF Val(f, q) = Wv(near, q) THEN 0 ELSE Val(f, q)), <<"Minimal", w, p, r>>)
=============================================================================
