------------------------------- MODULE EnrichMC -------------------------------
(* Keyboards, fonts and names added to a document in any order, and again,   *)
(* over what there may be of them already.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kbds, Fonts, Emit

\* tags: 1 root 2 leaf; attributes 30.. ; values: keyboards 1 2, fonts 1 2, texts 70 + x the right URLs, 80 others, 90 names
El(x, y) == y
AtO(x, y) == y
Decl(x, y) == y # 36 /\ y # 33 /\ y # 50
VK(x, y, z) == <<1, z>>
Out(a) == a
Ser(g) == FALSE
DR(v) == v
NT(t) == t
Names == [draft |-> 50, alt |-> 51, silidentity |-> 99, identity |-> 9, special |-> 97, arrow |-> 96, unconfirmed |-> 3]
ENames == [special |-> 97, xres |-> 11, kbd |-> 12, url |-> 13, font |-> 14, id |-> 30, type |-> 31, kmp |-> 7, name |-> 32, types |-> 33,
           features |-> 36, default |-> 8, ui |-> 6, draft |-> 50, generated |-> 5, localeDisplayNames |-> 15, names |-> 16, silname |-> 17,
           lang |-> 34, en |-> 4, languages |-> 18, language |-> 19, identity |-> 9, silidentity |-> 99, source |-> 35, cldr |-> 3, characters |-> 20, exemplars |-> 21]
INSTANCE Enrich WITH ElOrd <- El, AtOrd <- AtO, Distinguishing <- Decl, ValKey <- VK, OutName <- Out, Serial <- Ser, DraftRate <- DR,
  NormText <- NT, N <- Names, E <- ENames

Nd(g, a, t, k) == [g |-> g, a |-> a, t |-> t, k |-> k, c |-> <<>>, e |-> <<>>, z |-> <<>>]
Leaf(g, t) == Nd(g, <<>>, t, <<>>)
Url(t) == IF t = 0 THEN <<>> ELSE <<Leaf(13, t)>>
\* u: -1 no such element, 0 one without a URL, 1 the right one, 2 another one
UrlOf(x, u) == IF u < 1 THEN <<>> ELSE Url(IF u = 1 THEN 70 + x ELSE 80)
KbdEl(x, u) == IF u < 0 THEN <<>> ELSE <<Nd(12, <<<<30, x>>, <<31, 7>>>>, 0, UrlOf(x, u))>>
FontEl(x, u) == IF u < 0 THEN <<>> ELSE <<Nd(14, <<<<32, x>>>>, 0, UrlOf(x, u))>>
Xres(w) == KbdEl(1, w.k1) \o KbdEl(2, w.k2) \o FontEl(1, w.f1)
\* s: 0 no special, 1 one with something else only, 2 one with resources, 3 something else in one and resources in another one
Special(w) == IF w.s = 0 THEN <<>> ELSE IF w.s = 1 THEN <<Nd(97, <<>>, 0, <<Leaf(2, 60)>>)>>
              ELSE (IF w.s = 3 THEN <<Nd(97, <<>>, 0, <<Leaf(2, 60)>>)>> ELSE <<>>) \o <<Nd(97, <<>>, 0, <<Nd(11, <<>>, 0, Xres(w))>>)>>
NamesEl(w) == IF w.n = 0 THEN <<>>
              ELSE <<Nd(15, <<>>, 0, <<Nd(18, <<>>, 0, <<Nd(19, <<<<31, 2>>>>, 92, <<>>)>> \o (IF w.n < 2 THEN <<>> ELSE <<Nd(19, <<<<31, 1>>>>, IF w.n = 2 THEN 0 ELSE 93, <<>>)>>))>>)>>
Doc(w) == Nd(1, <<>>, 0, Special(w) \o NamesEl(w) \o <<Leaf(2, 61)>>)
World == {w \in [s : 0..3, k1 : -1..2, k2 : {-1, 0}, f1 : -1..2, n : 0..3] : (w.s < 2 => w.k1 = -1 /\ w.k2 = -1 /\ w.f1 = -1) /\ (w.s = 3 => w.k2 = -1 /\ w.n = 0)}

Ops == (1..Kbds) \cup {10 + Fonts, 20}
Flist(k) == [i \in 1..k |-> [name |-> i, url |-> IF i = 3 THEN 0 ELSE 70 + i, features |-> IF i = 2 THEN 40 ELSE 0, sans |-> i = 3]]
Apply(d, op) == IF op = 20 THEN WithNames(d, 1, 90, 91) ELSE IF op > 10 THEN WithFonts(d, Flist(op - 10), TRUE) ELSE AddKeyboard(d, [id |-> op, url |-> 70 + op])

VARIABLES w, doc, todo, again
vars == <<w, doc, todo, again>>
Init == w \in World /\ doc = Doc(w) /\ todo = Ops /\ again = FALSE /\ (Emit => PrintT(<<"CASE", ToJson(w)>>))
Add(op) == op \in todo /\ doc' = Apply(doc, op) /\ todo' = todo \ {op} /\ UNCHANGED <<w, again>>
Again == todo = {} /\ ~again /\ again' = TRUE /\ todo' = Ops /\ UNCHANGED <<w, doc>>
Next == (\E op \in Ops : Add(op)) \/ Again
Spec == Init /\ [][Next]_vars

RECURSIVE Nodes(_, _)
Nodes(n, path) == (IF path = <<>> THEN <<n>> ELSE Flat([i \in 1..Len(n.k) |-> IF n.k[i].g = Head(path) THEN Nodes(n.k[i], Tail(path)) ELSE <<>>]))
Kbd(x) == SelectSeq(Nodes(doc, <<97, 11, 12>>), LAMBDA n : At(n, 30) = x)
Font(x) == SelectSeq(Nodes(doc, <<97, 11, 14>>), LAMBDA n : At(n, 32) = x)
Own == SelectSeq(Nodes(doc, <<15, 18, 19>>), LAMBDA n : At(n, 31) = 1)
English == Nodes(doc, <<15, 97, 16, 17>>)
TextOfUrl(n) == [i \in 1..Len(n.k) |-> n.k[i].t]
Done(op) == op \notin todo \/ again
\* what is there of what was added, in terms of values alone
Good ==
  /\ \A x \in 1..Kbds : Done(x) => Assert(Len(Kbd(x)) = 1 /\ TextOfUrl(Kbd(x)[1]) = <<70 + x>>, <<"Keyboard", w, doc>>)
  /\ Done(10 + Fonts) => \A x \in 1..Fonts : Assert(Len(Font(x)) = 1 /\ TextOfUrl(Font(x)[1]) = (IF x = 3 THEN <<>> ELSE <<70 + x>>)
                                                  /\ At(Font(x)[1], 33) = (IF x = 1 THEN 8 ELSE IF x = 3 THEN 6 ELSE 0), <<"Font", w, doc>>)
  /\ Done(20) => Assert(Len(Own) = 1 /\ Own[1].t = (IF w.n = 3 THEN 93 ELSE 91) /\ Len(English) = 1 /\ English[1].t = 90, <<"Names", w, doc>>)
\* all the rest is what it was
RECURSIVE Without(_)
Without(n) == LET ks == [i \in 1..Len(n.k) |-> Without(n.k[i])]
                  mine(i) == n.k[i].g \in {12, 14, 17} \/ (n.k[i].g = 19 /\ At(n.k[i], 31) = 1)
                  hull(i) == n.k[i].g \in {97, 11, 15, 16, 18} /\ ks[i].k = <<>>
                  ix == SelectSeq([i \in 1..Len(n.k) |-> i], LAMBDA i : ~mine(i) /\ ~hull(i))
              IN [n EXCEPT !.k = [i \in 1..Len(ix) |-> ks[ix[i]]]]
Rest == LET a == Without(doc)
            b == Without(Doc(w))
        IN Bag(a) = Bag(b)
Settled == again => Bag(doc) = Bag(Apply(Apply(doc, 20), 10 + Fonts))
\* whatever the order (the status of what only holds others isn't written)
RECURSIVE InTurn(_, _)
InTurn(d, S) == IF S = {} THEN d ELSE LET x == SetMin(S) IN InTurn(Apply(d, x), S \ {x})
Same == todo = {} => LET a == Canon(doc, TRUE, FALSE)
                         b == Canon(InTurn(Doc(w), Ops), TRUE, FALSE)
                     IN Bag(a) = Bag(b)
Idle == [][again => Bag(doc') = Bag(doc)]_vars
=============================================================================
