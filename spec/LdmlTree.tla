------------------------------ MODULE LdmlTree ------------------------------
(***************************************************************************)
(* LDML documents as trees, and their normal form.                          *)
(*                                                                          *)
(* Names, values and texts are natural numbers standing for strings, in     *)
(* code point order, 0 being an absent (or empty) one. What is known of     *)
(* them comes from the DTD and so on through the operators below.           *)
(*                                                                          *)
(* An element is a record                                                   *)
(*    g  tag          a  sequence of <<name, value>>, its attributes        *)
(*    t  text         k  sequence of elements, its children                 *)
(*    c  comments before it        e  comments after its last child         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  ElOrd(_, _),      \* place of child tag y in the content model of tag x, larger than all others if not in it
  AtOrd(_, _),      \* place of attribute y among those declared for tag x, ditto
  Distinguishing(_, _), \* whether attribute y distinguishes elements x from each other
  ValKey(_, _, _),  \* sort key, a pair, of value z of attribute y of tag x
  OutName(_),       \* the name an attribute is written with
  Serial(_),        \* elements that may be repeated, the position being all that distinguishes them
  DraftRate(_),     \* rating of a draft status
  NormText(_),      \* text without the white space that doesn't count
  N                 \* names: draft, alt, silidentity, identity, special, arrow (text), unconfirmed

---------------------------------------------------------------------------
\* Attributes

HasAt(n, x) == \E i \in 1..Len(n.a) : n.a[i][1] = x
At(n, x) == IF HasAt(n, x) THEN n.a[CHOOSE i \in 1..Len(n.a) : n.a[i][1] = x][2] ELSE 0
AtSet(n) == {n.a[i] : i \in 1..Len(n.a)}

RECURSIVE LexLE(_, _, _)
LexLE(a, b, i) ==
  IF i > Len(a) THEN TRUE
  ELSE IF i > Len(b) THEN FALSE
  ELSE IF a[i] < b[i] THEN TRUE
  ELSE IF a[i] > b[i] THEN FALSE
  ELSE LexLE(a, b, i + 1)

\* stable sort of a sequence by a key, a sequence of integers
RECURSIVE Insert(_, _)
Insert(s, x) ==
  IF s = <<>> THEN <<x>>
  ELSE IF LexLE(s[Len(s)][1], x[1], 1) THEN Append(s, x)
  ELSE Append(Insert(SubSeq(s, 1, Len(s) - 1), x), s[Len(s)])
RECURSIVE SortFrom(_, _, _)
SortFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE SortFrom(s, i + 1, Insert(acc, s[i]))
KSort(s, K(_)) == LET r == SortFrom([i \in 1..Len(s) |-> <<K(s[i]), s[i]>>], 1, <<>>)
                  IN [i \in 1..Len(s) |-> r[i][2]]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* the order attributes are compared in, and the order they are written in
AttrsByDTD(n) == KSort(n.a, LAMBDA p : <<AtOrd(n.g, p[1]), p[1]>>)
AttrsWritten(n) == KSort(n.a, LAMBDA p : <<AtOrd(n.g, OutName(p[1])), OutName(p[1])>>)

---------------------------------------------------------------------------
\* Drafts

RECURSIVE FindKid(_, _, _)
FindKid(n, g, i) == IF i > Len(n.k) THEN <<>> ELSE IF n.k[i].g = g THEN <<n.k[i]>> ELSE FindKid(n, g, i + 1)
RECURSIVE IdentDraft(_, _)
IdentDraft(ks, path) ==       \* the first element along the path
  IF ks = <<>> THEN <<>>
  ELSE IF Head(ks).g = Head(path)
       THEN IF Len(path) = 1 THEN <<Head(ks)>>
            ELSE LET r == IdentDraft(Head(ks).k, Tail(path))
                 IN IF r # <<>> THEN r ELSE IdentDraft(Tail(ks), path)
       ELSE IdentDraft(Tail(ks), path)
\* The status that elements not marked with one have
DefaultDraft(root) ==
  LET f == IdentDraft(root.k, <<N.identity, N.special, N.silidentity>>)
  IN IF f # <<>> /\ HasAt(f[1], N.draft) THEN At(f[1], N.draft) ELSE N.unconfirmed

Rate(n, dd) == DraftRate(IF HasAt(n, N.draft) THEN At(n, N.draft) ELSE dd)

\* Whether the status of n goes without saying
DropsDraft(n, dd, ud) == /\ ud /\ At(n, N.draft) # 0 /\ n.g # N.silidentity
                         /\ Len(n.k) > 0 \/ At(n, N.draft) = dd

---------------------------------------------------------------------------
\* The order of elements

SortKey(parent, n, dd, ud) ==
  LET as == SelectSeq(AttrsByDTD(n), LAMBDA p : p[1] # N.draft \/ ~DropsDraft(n, dd, ud))
  IN <<ElOrd(parent, n.g), n.g>> \o Flat([i \in 1..Len(as) |-> <<as[i][1]>> \o ValKey(n.g, as[i][1], as[i][2])])

\* What distinguishes n among its siblings (alternates aside, if they are in use)
Key(n, ud) == <<n.g, {p \in AtSet(n) : Distinguishing(n.g, p[1]) /\ ~(ud /\ p[1] \in {N.draft, N.alt})}>>

---------------------------------------------------------------------------
\* The normal form

\* without inheritance markers and what they leave empty
RECURSIVE Prune(_)
Prune(n) ==
  LET ks == [i \in 1..Len(n.k) |-> Prune(n.k[i])]
      Gone(i) == n.k[i].t = N.arrow \/ (Len(n.k[i].k) > 0 /\ Len(ks[i].k) = 0)
      ix == SelectSeq([i \in 1..Len(ks) |-> i], LAMBDA i : ~Gone(i))
  IN [n EXCEPT !.k = [j \in 1..Len(ix) |-> ks[ix[j]]]]

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

\* The children that stay, rate being how their statuses are rated: of those of the same key and alternate name the best (the first of
\* equals). The one without an alternate name, else the best, is followed by the others.
Pack(ks, rate) ==
  LET I == 1..Len(ks)
      key == [i \in I |-> Key(ks[i], TRUE)]
      alt == [i \in I |-> At(ks[i], N.alt)]
      packs == {i \in I : ~Serial(ks[i].g)}
      group == [i \in packs |-> {j \in packs : key[j] = key[i]}]
      same(i) == {j \in group[i] : alt[j] = alt[i]}
      kept == {i \in packs : \A j \in same(i) : rate[j] > rate[i] \/ (rate[j] = rate[i] /\ j >= i)}
      others(i) == (group[i] \cap kept) \ {i}
      \* 0 is the absent name
      primary(i) == /\ i \in kept
                    /\ \/ alt[i] = 0
                       \/ \A j \in others(i) : alt[j] # 0 /\ (rate[j] > rate[i] \/ (rate[j] = rate[i] /\ j > i))
      \* those that don't have a name come before those that do
      RECURSIVE ByAlt(_)
      ByAlt(S) == IF S = {} THEN <<>>
                  ELSE LET x == CHOOSE x \in S : \A y \in S : alt[x] <= alt[y]
                       IN <<ks[x]>> \o ByAlt(S \ {x})
  IN Flat([i \in I |-> IF i \notin packs THEN <<ks[i]>>
                       ELSE IF primary(i) THEN <<ks[i]>> \o ByAlt(others(i)) ELSE <<>>])

RECURSIVE NormNode(_, _, _)
NormNode(n, dd, ud) ==
  LET \* comments at the end stay after the child they follow
      cs == [i \in 1..Len(n.k) |-> [n |-> n.k[i], z |-> IF i = Len(n.k) THEN n.e ELSE <<>>]]
      ordered == KSort(cs, LAMBDA x : SortKey(n.g, x.n, dd, ud))
      ks == [i \in 1..Len(ordered) |->
               LET m == NormNode(ordered[i].n, dd, ud) IN [m EXCEPT !.z = ordered[i].z]]
      packed == IF ud THEN Pack(ks, [i \in 1..Len(ks) |-> Rate(ordered[i].n, dd)]) ELSE ks
      \* a comment after one child is one before the next
      moved == [i \in 1..Len(packed) |->
                  [packed[i] EXCEPT !.c = (IF i > 1 THEN packed[i-1].z ELSE <<>>) \o packed[i].c, !.z = <<>>]]
  IN [g |-> n.g,
      a |-> AttrsWritten([n EXCEPT !.a = SelectSeq(n.a, LAMBDA p : p[1] # N.draft \/ ~DropsDraft(n, dd, ud))]),
      t |-> IF Len(n.k) > 0 THEN NormText(0) ELSE NormText(n.t),
      k |-> moved,
      c |-> n.c,
      e |-> IF Len(packed) > 0 THEN packed[Len(packed)].z ELSE <<>>,
      z |-> <<>>]

\* ud: alternates and drafts are in use. up: inheritance markers are kept
Canon(root, ud, up) ==
  LET dd == DefaultDraft(root)
  IN NormNode(IF up THEN root ELSE Prune(root), dd, ud)

---------------------------------------------------------------------------
\* Judging a document that was written

\* In canonical order: apart from alternates, which follow their primary by name
RECURSIVE OrderFault(_, _, _)
OrderFault(n, dd, ud) ==
  LET K == [i \in 1..Len(n.k) |-> SortKey(n.g, n.k[i], dd, ud)]
      isalt(i) == /\ ud /\ i > 1 /\ At(n.k[i], N.alt) # 0 /\ ~Serial(n.k[i].g)
                  /\ Key(n.k[i], ud) = Key(n.k[i-1], ud)
      head(i) == CHOOSE h \in 1..i : ~isalt(h) /\ \A j \in (h+1)..i : isalt(j)
      prev(i) == head(i - 1)
      aw == AttrsWritten(n)
  IN IF \E i \in 1..Len(n.a) : n.a[i] # aw[i] THEN "attributes out of order"
     ELSE IF \E i \in 2..Len(n.k) : ~isalt(i) /\ ~LexLE(K[prev(i)], K[i], 1) THEN "elements out of order"
     ELSE IF \E i \in 2..Len(n.k) : isalt(i) /\ isalt(i-1) /\ At(n.k[i-1], N.alt) > At(n.k[i], N.alt) THEN "alternates out of order"
     ELSE LET F == {i \in 1..Len(n.k) : OrderFault(n.k[i], dd, ud) # ""}
          IN IF F = {} THEN "" ELSE OrderFault(n.k[SetMin(F)], dd, ud)

\* The same whatever the order of attributes and siblings
RECURSIVE Bag(_)
Bag(n) ==
  LET B == [i \in 1..Len(n.k) |-> Bag(n.k[i])]
      S == {B[i] : i \in 1..Len(n.k)}
  IN [g |-> n.g, a |-> AtSet(n), t |-> n.t,
      k |-> {<<b, Cardinality({i \in 1..Len(n.k) : B[i] = b})>> : b \in S}]

RECURSIVE Comments(_)
Comments(n) == n.c \o Flat([i \in 1..Len(n.k) |-> Comments(n.k[i])]) \o n.e
\* tag -> comments that are somewhere directly within such elements
SeqBag(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
RECURSIVE InnerComments(_)
InnerComments(n) ==       \* comments by the path of tags to what they are in
  LET own == Flat([i \in 1..Len(n.k) |-> n.k[i].c]) \o n.e
  IN [i \in 1..Len(own) |-> <<<<n.g>>, own[i]>>]
     \o Flat([i \in 1..Len(n.k) |->
                LET s == InnerComments(n.k[i]) IN [j \in 1..Len(s) |-> <<<<n.g>> \o s[j][1], s[j][2]>>]])

Tags(n) == {n.k[i].g : i \in 1..Len(n.k)}
\* the place where b, the bag of what is there, first differs from what should be
RECURSIVE BagDiff(_, _, _)
BagDiff(x, y, depth) ==
  IF x.g # y.g THEN "different element"
  ELSE IF AtSet(x) # AtSet(y) THEN "different attributes"
  ELSE IF x.t # y.t THEN "different text"
  ELSE IF Bag(x) = Bag(y) THEN ""
  ELSE LET cnt(n, b) == Cardinality({i \in 1..Len(n.k) : Bag(n.k[i]) = b})
           more == {i \in 1..Len(x.k) : cnt(x, Bag(x.k[i])) > cnt(y, Bag(x.k[i]))}
           less == {i \in 1..Len(y.k) : cnt(y, Bag(y.k[i])) > cnt(x, Bag(y.k[i]))}
       IN IF more # {} /\ less = {} THEN "an element lost"
          ELSE IF less # {} /\ more = {} THEN "an element invented"
          ELSE IF more = {} THEN "elements differ"
          ELSE LET i == SetMin(more)
                   L == {j \in less : Key(y.k[j], FALSE) = Key(x.k[i], FALSE)}
                   M == {j \in less : y.k[j].g = x.k[i].g}
               IN IF L # {} THEN BagDiff(x.k[i], y.k[SetMin(L)], depth + 1)
                  ELSE IF M # {} THEN BagDiff(x.k[i], y.k[SetMin(M)], depth + 1)
                  ELSE "an element lost and another invented"
=============================================================================
