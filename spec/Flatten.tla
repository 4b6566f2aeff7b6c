------------------------------ MODULE Flatten ------------------------------
(***************************************************************************)
(* Filling in a locale from the locales it falls back to, and taking away   *)
(* again what these say. Locales are named by sequences of subtags; Docs is *)
(* a function of their names to their documents, in normal form.            *)
(***************************************************************************)
EXTENDS LdmlTree
CONSTANTS Blocks,    \* tags of elements inherited whole or not at all, and not into what is there
          F          \* names: alias, xres, font, types, collations, collation, modified, true, root, script, type, default

Root == <<F.root>>
KidNo(n, key) == LET I == {i \in 1..Len(n.k) : Key(n.k[i], TRUE) = key} IN IF I = {} THEN 0 ELSE SetMin(I)

\* What an element says, its attestation aside
RECURSIVE Says(_)
Says(n) == [g |-> n.g, a |-> {p \in AtSet(n) : p[1] # N.draft}, t |-> NormText(n.t), k |-> {Says(n.k[i]) : i \in 1..Len(n.k)}]

---------------------------------------------------------------------------
\* Inheriting. Of the fonts those are inherited for whose purpose there are none.

CONSTANT TypesOf(_), JoinTypes(_, _)    \* the purposes a font is for, as a set, and the value for some of these
FontTypes(f) == IF HasAt(f, F.types) THEN TypesOf(At(f, F.types)) ELSE {F.default}

RECURSIVE Overlay(_, _)
Overlay(t, o) ==
  LET T == {Key(t.k[i], TRUE) : i \in 1..Len(t.k)}
      under == [i \in 1..Len(t.k) |->
                 LET j == KidNo(o, Key(t.k[i], TRUE))
                 IN IF j = 0 \/ t.k[i].g \in Blocks \/ (t.g = F.xres /\ t.k[i].g = F.font) THEN t.k[i] ELSE Overlay(t.k[i], o.k[j])]
      known == UNION {FontTypes(t.k[i]) : i \in {i \in 1..Len(t.k) : t.k[i].g = F.font}}
      font(f) == LET more == FontTypes(f) \ known
                 IN IF more = {} THEN <<>>
                    ELSE IF more = FontTypes(f) THEN <<f>>
                    ELSE <<[f EXCEPT !.a = SelectSeq(f.a, LAMBDA p : p[1] # F.types) \o <<<<F.types, JoinTypes(At(f, F.types), more)>>>>]>>
      new == Flat([j \in 1..Len(o.k) |->
               IF o.k[j].g \in Blocks THEN <<>>
               ELSE IF t.g = F.xres /\ o.k[j].g = F.font THEN font(o.k[j])
               ELSE IF Key(o.k[j], TRUE) \in T THEN <<>>
               ELSE IF o.k[j].g = F.alias /\ Len(t.k) > 0 THEN <<>>
               ELSE <<o.k[j]>>])
  IN [t EXCEPT !.k = under \o new]

---------------------------------------------------------------------------
\* Taking away what is the same

RECURSIVE Without(_, _), Emptied(_, _), Gone(_, _, _)
\* an item with its alternates
Group(n, key) == LET I == {i \in 1..Len(n.k) : Key(n.k[i], TRUE) = key} IN {Says(n.k[i]) : i \in I}
Alone(n, key) == Cardinality({i \in 1..Len(n.k) : Key(n.k[i], TRUE) = key}) = 1
\* whether o says all of the i'th of t
Gone(t, o, i) ==
  LET x == t.k[i]
      key == Key(x, TRUE)
      j == KidNo(o, key)
  IN IF j = 0 \/ x.g \in Blocks THEN FALSE
     ELSE IF Alone(t, key) /\ Alone(o, key) THEN Emptied(x, o.k[j])
     ELSE Group(t, key) = Group(o, key)      \* alternates come with the item or not at all
\* t with what o doesn't say
Without(t, o) ==
  LET rest(i) == LET x == t.k[i] key == Key(x, TRUE)
                 IN IF Gone(t, o, i) THEN <<>>
                    ELSE IF x.k = <<>> \/ x.g \in Blocks \/ KidNo(o, key) = 0 \/ ~Alone(t, key) \/ ~Alone(o, key) THEN <<x>>
                    ELSE <<Without(x, o.k[KidNo(o, key)])>>
  IN [t EXCEPT !.k = Flat([i \in 1..Len(t.k) |-> rest(i)])]
Emptied(t, o) ==
  \/ Says(t) = Says(o)
  \/ /\ t.k # <<>> /\ o.k # <<>>
     /\ {p \in AtSet(t) : p[1] # N.draft} = {p \in AtSet(o) : p[1] # N.draft}      \* which aren't inherited
     /\ \A j \in 1..Len(o.k) : o.k[j].g \notin Blocks      \* or they would be inherited with it gone
     /\ \A i \in 1..Len(t.k) : Gone(t, o, i)

---------------------------------------------------------------------------
\* The locales fallen back to

ScriptOf(doc) ==
  LET s == IdentDraft(doc.k, <<N.identity, N.special, N.silidentity>>)
      i == IdentDraft(doc.k, <<N.identity, F.script>>)
  IN IF s # <<>> /\ HasAt(s[1], F.script) THEN At(s[1], F.script)
     ELSE IF i # <<>> /\ HasAt(i[1], F.type) THEN At(i[1], F.type) ELSE 0

RECURSIVE Trims(_)
Trims(name) == IF name = <<>> THEN <<>> ELSE <<name>> \o Trims(SubSeq(name, 1, Len(name) - 1))
\* parents are those given in the document or else the supplemental data, if any
Chain(name, parents) ==
  LET first == IF parents = <<>> THEN <<SubSeq(name, 1, Len(name) - 1)>> ELSE parents
      all == IF name = Root \/ \E i \in 1..Len(first) : first[i] = Root THEN first ELSE Append(first, Root)
  IN Flat([i \in 1..Len(all) |-> Trims(all[i])])
Usable(doc, anc) == LET s == ScriptOf(anc) IN s = 0 \/ s = ScriptOf(doc)
\* those of the chain there are, in this script
Ancestors(doc, name, parents, docs) ==
  SelectSeq(Chain(name, parents), LAMBDA x : x \in DOMAIN docs /\ Usable(doc, docs[x]))

\* collations that aren't the root's are so marked
Collations(doc) == UNION {{doc.k[i].k[j] : j \in {j \in 1..Len(doc.k[i].k) : doc.k[i].k[j].g = F.collation}}
                         : i \in {i \in 1..Len(doc.k) : doc.k[i].g = F.collations}}
Flagged(doc, root) ==
  LET theirs == {Says(c) : c \in Collations(root)}
  IN [doc EXCEPT !.k = [i \in 1..Len(doc.k) |->
     IF doc.k[i].g # F.collations THEN doc.k[i]
     ELSE [doc.k[i] EXCEPT !.k = [j \in 1..Len(@) |->
             IF @[j].g # F.collation \/ Says(@[j]) \in theirs THEN @[j]
             ELSE [@[j] EXCEPT !.a = SelectSeq(@, LAMBDA p : p[1] # F.modified) \o <<<<F.modified, F.true>>>>]]]]]

RECURSIVE Fill(_, _, _)
Fill(doc, anc, docs) ==
  IF anc = <<>> THEN doc
  ELSE Fill(Overlay(IF Head(anc) = Root THEN Flagged(doc, docs[Root]) ELSE doc, docs[Head(anc)]), Tail(anc), docs)
Flattened(doc, name, parents, docs) == Fill(doc, Ancestors(doc, name, parents, docs), docs)

\* What is done with a locale at all, when asked to leave out those of which there is only the identity, and
\* those that fall back to nothing that changed (nothing said to have changed being everything)
Stub(doc) == Len(doc.k) = 1 /\ doc.k[1].g = N.identity
Range(s) == {s[i] : i \in 1..Len(s)}
Touched(name, parents, changed) == changed = {} \/ Range(Chain(name, parents)) \cap changed # {}
Affected(doc, name, parents, docs, changed) == changed = {} \/ Range(Ancestors(doc, name, parents, docs)) \cap changed # {}

Unflattened(doc, name, parents, docs) ==
  LET anc == Ancestors(doc, name, parents, docs)
  IN IF anc = <<>> THEN doc ELSE Without(doc, docs[anc[1]])
=============================================================================
