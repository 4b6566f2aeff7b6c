------------------------------- MODULE NormMC -------------------------------
(* Every family of a few siblings: the normal form is idempotent, does not   *)
(* depend on the order of distinguishable siblings, and drops only what it   *)
(* may.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxKids, Emit

\* tags: 1 language (in the DTD), 2 unknown, 3 special (serial), 9 languages
\* attributes: 1 type, 2 draft, 3 alt. drafts: 1 approved, 2 the default, 3 tentative
\* texts are 1 and 2
El(x, y) == IF y = 1 THEN 1 ELSE IF y = 3 THEN 2 ELSE 1000
AtO(x, y) == IF x \in {1, 3} THEN y ELSE 1000
Decl(x, y) == x \in {1, 3}
\* values 2 and 3 of type differ only in case
VK(x, y, z) == IF y = 1 THEN <<1, IF z = 3 THEN 2 ELSE z>> ELSE <<1, z>>
Out(a) == a
Ser(g) == g = 3
DR(v) == CASE v = 1 -> 0 [] v = 2 -> 3 [] v = 3 -> 4 [] OTHER -> 5
NT(t) == t
Names == [draft |-> 2, alt |-> 3, silidentity |-> 99, identity |-> 98, special |-> 3, arrow |-> 97, unconfirmed |-> 2]
INSTANCE LdmlTree WITH ElOrd <- El, AtOrd <- AtO, Distinguishing <- Decl, ValKey <- VK, OutName <- Out,
  Serial <- Ser, DraftRate <- DR, NormText <- NT, N <- Names

Leaf(k) == [g |-> k.g, t |-> k.t, k |-> <<>>, c |-> <<>>, e |-> <<>>, z |-> <<>>,
            a |-> (IF k.alt = 0 THEN <<>> ELSE <<<<3, k.alt>>>>) \o (IF k.d = 0 THEN <<>> ELSE <<<<2, k.d>>>>)
                  \o (IF k.ty = 0 THEN <<>> ELSE <<<<1, k.ty>>>>)]
Doc(ks) == [g |-> 9, t |-> 0, a |-> <<>>, c |-> <<>>, e |-> <<>>, z |-> <<>>,
            k |-> [i \in 1..Len(ks) |-> Leaf(ks[i])]]

Kids == [g : {1}, ty : 0..3, d : {0, 1, 3}, alt : 0..2, t : {1}]
        \cup [g : {1}, ty : {1}, d : {0, 1, 2, 3}, alt : 0..1, t : {1, 2}]
        \cup [g : {2}, ty : {0, 1}, d : {0, 3}, alt : {0, 1}, t : {1}]
        \cup [g : {3}, ty : {0}, d : {0}, alt : {0}, t : {1, 2}]
Small == [g : {1}, ty : {1, 2}, d : {0, 1, 3}, alt : {0, 1}, t : {1}]
         \cup [g : {1}, ty : {1}, d : {0, 1}, alt : {0, 1}, t : {2}]

VARIABLES kids
Init == kids = <<>>
Next == /\ Len(kids) < MaxKids
        /\ \E k \in IF Len(kids) < 2 THEN Kids ELSE Small : kids' = Append(kids, k)
        /\ (Emit => PrintT(<<"CASE", ToJson([kids |-> kids'])>>))
Spec == Init /\ [][Next]_kids

DD == 2
C(ks) == NormNode(Doc(ks), DD, TRUE)
Swap(i) == [kids EXCEPT ![i] = kids[i+1], ![i+1] = kids[i]]
\* siblings are distinguishable if neither their keys nor the places these give are the same
Distinct(a, b) == /\ Key(Leaf(a), TRUE) # Key(Leaf(b), TRUE)
                  /\ SortKey(9, Leaf(a), DD, TRUE) # SortKey(9, Leaf(b), DD, TRUE)
NoDraft(n) == [n EXCEPT !.a = {p \in AtSet(n) : p # <<2, DD>>}]

Idempotent(c) == NormNode(c, DD, TRUE) = c
Permutable(c) == \A i \in 1..(Len(kids) - 1) : Distinct(kids[i], kids[i+1]) => C(Swap(i)) = c
NothingInvented(c) ==
  LET out == [i \in 1..Len(c.k) |-> NoDraft(c.k[i])]
      in == [i \in 1..Len(kids) |-> NoDraft(Leaf(kids[i]))]
  IN \A i \in 1..Len(out) : Cardinality({j \in 1..Len(out) : out[j] = out[i]})
                               <= Cardinality({j \in 1..Len(in) : in[j] = out[i]})
NothingLost(c) == \A i \in 1..Len(kids) :
  LET lf == Leaf(kids[i]) key == Key(lf, TRUE) rt == Rate(lf, DD)
  IN \E j \in 1..Len(c.k) : /\ Key(c.k[j], TRUE) = key
                              /\ At(c.k[j], 3) = kids[i].alt
                              /\ Rate(c.k[j], DD) <= rt
                              /\ kids[i].g = 3 => c.k[j].t = kids[i].t
OnePrimary(c) ==
  LET key == [i \in 1..Len(c.k) |-> Key(c.k[i], TRUE)]
  IN \A i, j \in 1..Len(c.k) :
        (i # j /\ c.k[i].g # 3 /\ key[i] = key[j]) => At(c.k[i], 3) # At(c.k[j], 3)
Ordered(c) == OrderFault(c, DD, TRUE) = ""

\* the properties of the normal form, one at a time so that a failure shows which
Good == LET c == C(kids)
        IN /\ Assert(Idempotent(c), <<"Idempotent", kids>>)
           /\ Assert(Permutable(c), <<"Permutable", kids>>)
           /\ Assert(NothingInvented(c), <<"NothingInvented", kids>>)
           /\ Assert(NothingLost(c), <<"NothingLost", kids>>)
           /\ Assert(OnePrimary(c), <<"OnePrimary", kids>>)
           /\ Assert(Ordered(c), <<"Ordered", kids>>)
=============================================================================
