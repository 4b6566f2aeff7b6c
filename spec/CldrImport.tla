----------------------------- MODULE CldrImport -----------------------------
(***************************************************************************)
(* Importing locales from CLDR. What CLDR says of a locale is in parts, in  *)
(* files of several directories; what is imported is one document with what *)
(* all of them say, what an earlier part says being kept. The locales may   *)
(* be imported in any order. A locale may fail. Files of locales that CLDR  *)
(* doesn't have may be removed.                                             *)
(***************************************************************************)
EXTENDS Flatten
CONSTANT C      \* names: references, source, version, generation, number, date

RECURSIVE Unreferenced(_)
Unreferenced(n) == [n EXCEPT !.a = SelectSeq(n.a, LAMBDA p : p[1] # C.references), !.k = [i \in 1..Len(n.k) |-> Unreferenced(n.k[i])]]

RECURSIVE Joined(_)
Joined(parts) == IF Len(parts) = 1 THEN parts[1]
                 ELSE Joined(<<Overlay(parts[1], parts[2])>> \o SubSeq(parts, 3, Len(parts)))

New(g) == [g |-> g, a |-> <<>>, t |-> 0, k |-> <<>>, c |-> <<>>, e |-> <<>>, z |-> <<>>]
SetAt(n, p) == [n EXCEPT !.a = SelectSeq(n.a, LAMBDA q : q[1] # p[1]) \o <<p>>]
RECURSIVE SetAts(_, _)
SetAts(n, ps) == IF ps = <<>> THEN n ELSE SetAts(SetAt(n, Head(ps)), Tail(ps))
\* n with these attributes on the element at the path, made if it isn't there
RECURSIVE Marked(_, _, _)
Marked(n, path, ps) ==
  IF path = <<>> THEN SetAts(n, ps)
  ELSE LET \* the first which has the rest, or else the first
           I == {i \in 1..Len(n.k) : n.k[i].g = Head(path)}
           J == {i \in I : Len(path) = 1 \/ IdentDraft(n.k[i].k, Tail(path)) # <<>>}
           i == SetMin(IF J # {} THEN J ELSE I)
       IN IF I = {} THEN [n EXCEPT !.k = Append(@, Marked(New(Head(path)), Tail(path), ps))]
          ELSE [n EXCEPT !.k = [@ EXCEPT ![i] = Marked(@, Tail(path), ps)]]

\* ids: attributes of the sil:identity; revision: <<number, date>> or <<>>
Imported(parts, ids, revision) ==
  LET doc == Marked(Joined([i \in 1..Len(parts) |-> Unreferenced(parts[i])]), <<N.identity, N.special, N.silidentity>>, ids)
  IN IF revision = <<>> THEN doc
     ELSE Marked(Marked(doc, <<N.identity, C.version>>, <<<<C.number, revision[1]>>>>), <<N.identity, C.generation>>, <<<<C.date, revision[2]>>>>)
=============================================================================
