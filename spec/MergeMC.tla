------------------------------ MODULE MergeMC ------------------------------
(* Every triple of small documents: one of a leaf, or of a container of     *)
(* two. Shows that merging takes one sided changes, and emits the triples.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxVal, Emit, Drafts, TheirDels

\* tags: 1 root, 2 leaf, 3 container, 4 5 leaves within it. No distinguishing attributes.
El(x, y) == y
AtO(x, y) == y
Decl(x, y) == FALSE
VK(x, y, z) == <<1, z>>
Out(a) == a
Ser(g) == FALSE
DR(v) == v
NT(t) == t
Names == [draft |-> 50, alt |-> 51, silidentity |-> 99, identity |-> 98, special |-> 97, arrow |-> 96, unconfirmed |-> 3]
Cl(t, o, b) == <<"clash", t, o, b>>
ACl(x, t, o, b) == <<"attribute", x, t, o, b>>
INSTANCE Merge WITH ElOrd <- El, AtOrd <- AtO, Distinguishing <- Decl, ValKey <- VK, OutName <- Out,
  Serial <- Ser, DraftRate <- DR, NormText <- NT, N <- Names, Clash <- Cl, AttClash <- ACl

Nd(g, t, k) == [g |-> g, a |-> <<>>, t |-> t, k |-> k, c |-> <<>>, e |-> <<>>, z |-> <<>>]
Leaf(g, v) == IF v = 0 THEN <<>> ELSE <<Nd(g, v, <<>>)>>
\* a world is [l, x, y], values of the leaves or 0
Doc(w) == Nd(1, 0, Leaf(2, w.l) \o (IF w.x = 0 /\ w.y = 0 THEN <<>> ELSE <<Nd(3, 0, Leaf(4, w.x) \o Leaf(5, w.y))>>))
V == 0..MaxVal
Worlds == [l : V, x : {0}, y : {0}] \cup [l : {0}, x : V, y : V]

VARIABLES t, o, b
Init == t \in Worlds /\ o \in Worlds /\ b \in Worlds
        /\ ((t.l > 0 \/ o.l > 0 \/ b.l > 0) => (t.x + t.y + o.x + o.y + b.x + b.y = 0))
        /\ (Emit => PrintT(<<"CASE", ToJson([t |-> t, o |-> o, b |-> b])>>))
Next == UNCHANGED <<t, o, b>>
Spec == Init /\ [][Next]_<<t, o, b>>

M(p, q, r) == MergeDocs(Doc(p), Doc(q), Doc(r), 3)
Val(d, path) ==     \* of a leaf by its path, 0 if there's none
  IF path[1] = 2 THEN LET s == Sub(d, <<<<2, {}>>, 0>>) IN IF s = <<>> THEN 0 ELSE s[1].t
  ELSE LET c == Sub(d, <<<<3, {}>>, 0>>)
       IN IF c = <<>> THEN 0 ELSE LET s == Sub(c[1], <<<<path[2], {}>>, 0>>) IN IF s = <<>> THEN 0 ELSE s[1].t
Paths == {<<2>>, <<3, 4>>, <<3, 5>>}
VW(w, p) == IF p = <<2>> THEN w.l ELSE IF p = <<3, 4>> THEN w.x ELSE w.y
RECURSIVE AllComments(_)
AllComments(n) == n.c \o Flat([i \in 1..Len(n.k) |-> AllComments(n.k[i])])
\* whether the containers are on all sides, so that their items are merged one by one
Cont(w) == w.x + w.y > 0
OneByOne == Cont(t) = Cont(o) /\ (Cont(b) = Cont(t) \/ ~Cont(b))

Law(m, p) ==
  LET tv == VW(t, p) ov == VW(o, p) bv == VW(b, p) mv == Val(m, p)
  IN IF tv = ov THEN mv = tv
     ELSE IF tv = bv THEN mv = ov
     ELSE IF ov = bv THEN mv = tv
     ELSE IF tv = 0 THEN mv = ov
     ELSE IF ov = 0 THEN mv = (IF TheirDels /\ bv # 0 THEN 0 ELSE tv)
     ELSE IF bv = 0 THEN mv \in {tv, ov}
     ELSE mv = tv /\ \E i \in 1..Len(AllComments(m)) : AllComments(m)[i] = Cl(tv, ov, bv)
Good ==
  LET m == M(t, o, b)
  IN /\ Assert(OneByOne => \A p \in Paths : Law(m, p), <<"Law", t, o, b>>)
     \* nothing that isn't in one of them, no clash without one
     /\ Assert(\A p \in Paths : Val(m, p) \in {VW(t, p), VW(o, p), 0}, <<"Invented", t, o, b>>)
     /\ Assert((o = b => Says(m) = Says(Doc(t))) /\ (t = b => Says(m) = Says(Doc(o))), <<"Identity", t, o, b>>)
     /\ Assert(t = o => Says(m) = Says(Doc(t)), <<"Agreement", t, o, b>>)
     /\ Assert(Len(AllComments(m)) = Cardinality({p \in Paths : /\ VW(t, p) # VW(o, p) /\ VW(t, p) # VW(b, p) /\ VW(o, p) # VW(b, p)
                                                  /\ VW(t, p) > 0 /\ VW(o, p) > 0 /\ VW(b, p) > 0}), <<"Clashes", t, o, b>>)
     /\ Assert(\* without clashes and additions by both it doesn't matter whose is whose
               (~TheirDels /\ Len(AllComments(m)) = 0 /\ \A p \in Paths : VW(b, p) > 0 \/ VW(t, p) = 0 \/ VW(o, p) = 0)
                  => Says(m) = Says(M(o, t, b)), <<"Symmetric", t, o, b>>)
=============================================================================
