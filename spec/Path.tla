-------------------------------- MODULE Path --------------------------------
(* Finding, creating and removing elements by paths. A document is a         *)
(* sequence of elements, the first being its root, each                      *)
(*    g  tag      a  set of <<attribute, value>>     t  text                 *)
(*    k  sequence of children, as places in the document                     *)
(*    z  sequence of alternate values, each [n |-> its name, i |-> its place] *)
(* (what was removed stays in the sequence but isn't anyone's child). A path *)
(* is a sequence of steps, each a tag, or ".", and tests of attributes,      *)
(* each for its value or (has) for being there.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

Attrs(e) == {p[1] : p \in e.a}
Value(e, x) == IF x \in Attrs(e) THEN (CHOOSE p \in e.a : p[1] = x)[2] ELSE ""
Passes(e, st) == e.g = st.g /\ \A x \in st.tests : IF x.has THEN x.k \in Attrs(e) ELSE Value(e, x.k) = x.v

RECURSIVE Chosen(_, _, _)
Chosen(doc, ids, st) ==
  IF ids = <<>> THEN <<>>
  ELSE SelectSeq(doc[Head(ids)].k, LAMBDA c : Passes(doc[c], st)) \o Chosen(doc, Tail(ids), st)
RECURSIVE From(_, _, _)
From(doc, ids, path) == IF path = <<>> THEN ids
                        ELSE From(doc, IF Head(path).g = "." THEN ids ELSE Chosen(doc, ids, Head(path)), Tail(path))
Select(doc, base, path) == From(doc, <<base>>, path)

(* what is wanted of what was selected: "draft", those and their alternates  *)
(* with that draft status, "alt", the alternates of that name, or "both"     *)
Wanted(doc, c, md, draft, alt) ==
  LET d(i) == Value(doc[i], "draft")
      zs == SelectSeq(doc[c].z, LAMBDA x : CASE md = "draft" -> d(x.i) = draft
                                             [] md = "alt" -> x.n = alt
                                             [] md = "both" -> x.n = alt /\ d(x.i) = draft)
  IN (IF md = "draft" /\ d(c) = draft THEN <<c>> ELSE <<>>) \o [i \in 1..Len(zs) |-> zs[i].i]
RECURSIVE AllWanted(_, _, _)
AllWanted(doc, ids, o) == IF ids = <<>> THEN <<>> ELSE Wanted(doc, Head(ids), o.md, o.draft, o.alt) \o AllWanted(doc, Tail(ids), o)
Find(doc, o) == LET s == Select(doc, o.base, o.path) IN IF o.md = "" THEN s ELSE AllWanted(doc, s, o)

Definite(path) == \A i \in 1..Len(path) : /\ \A x \in path[i].tests : ~x.has
                                          /\ \A x, y \in path[i].tests : x.k = y.k => x = y

New(st, text, draft) == [g |-> st.g, a |-> {<<x.k, x.v>> : x \in {y \in st.tests : ~y.has /\ y.v # ""}} \cup (IF draft = "" THEN {} ELSE {<<"draft", draft>>}), t |-> text, k |-> <<>>, z |-> <<>>]
At(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
\* where a child goes: before the first of that tag, or last
Where(doc, p, before) == LET ms == {i \in 1..Len(doc[p].k) : doc[doc[p].k[i]].g = before}
                         IN IF ms = {} THEN Len(doc[p].k) + 1 ELSE CHOOSE i \in ms : \A j \in ms : i <= j
AddTo(doc, p, e, before) == [doc EXCEPT ![p].k = At(@, Where(doc, p, before), Len(doc) + 1)] \o <<e>>
\* the steps after the first n, each below the other
RECURSIVE Grow(_, _, _, _, _)
Grow(doc, p, path, o, n) ==
  IF n > Len(path) THEN doc
  ELSE IF path[n].g = "." THEN Grow(doc, p, path, o, n + 1)
  ELSE Grow(AddTo(doc, p, New(path[n], IF n = Len(path) THEN o.text ELSE "", o.draft), o.before), Len(doc) + 1, path, o, n + 1)

Parent(doc, c) == CHOOSE p \in 1..Len(doc) : \E i \in 1..Len(doc[p].k) : doc[p].k[i] = c

(* An operation [op, base, path, text, draft, before, md, alt], "" none. Gives  *)
(* the elements returned and the document                                    *)
Ensure(doc, o) ==
  LET found == Select(doc, o.base, o.path) IN
  IF found = <<>>
  THEN LET n == CHOOSE m \in 0..Len(o.path) - 1 : /\ Select(doc, o.base, SubSeq(o.path, 1, m)) # <<>>
                                                  /\ Select(doc, o.base, SubSeq(o.path, 1, m + 1)) = <<>>
           d == Grow(doc, Select(doc, o.base, SubSeq(o.path, 1, n))[1], o.path, o, n + 1)
       IN [ids |-> <<Len(d)>>, doc |-> d]
  ELSE IF o.text = "" THEN [ids |-> found, doc |-> doc]
  ELSE LET same == SelectSeq(found, LAMBDA c : doc[c].t = o.text)
       IN IF same # <<>> THEN [ids |-> same, doc |-> doc]
          ELSE [ids |-> <<Len(doc) + 1>>, doc |-> AddTo(doc, Parent(doc, found[1]), New(o.path[Len(o.path)], o.text, o.draft), o.before)]
Drop(doc, o) == LET found == Find(doc, o)
                    gone(c) == \E j \in 1..Len(found) : found[j] = c
  IN [ids |-> found, doc |-> [i \in 1..Len(doc) |-> [doc[i] EXCEPT !.k = SelectSeq(@, LAMBDA c : ~gone(c)), !.z = SelectSeq(@, LAMBDA x : ~gone(x.i))]]]
First(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>
Apply(doc, o) == CASE o.op = "ensure" -> Ensure(doc, o)
                   [] o.op = "remove" -> Drop(doc, o)
                   [] o.op = "findall" -> [ids |-> Find(doc, o), doc |-> doc]
                   [] o.op = "find" -> [ids |-> First(Select(doc, o.base, o.path)), doc |-> doc]
RECURSIVE Below(_, _)
Below(doc, p) == {p} \cup UNION {Below(doc, doc[p].k[i]) : i \in 1..Len(doc[p].k)} \cup {doc[p].z[i].i : i \in 1..Len(doc[p].z)}
=============================================================================
