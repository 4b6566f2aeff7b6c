------------------------------- MODULE Alias -------------------------------
(***************************************************************************)
(* Elements that have an alias child with a path have, in its place, the    *)
(* content of the element the path leads to. An element is a record         *)
(*   g tag, a set of <<name, value>>, t text, k children, p path of an alias *)
(* p being <<>> but for aliases to be resolved. A path is a sequence of     *)
(* steps [up |-> TRUE] (to the parent) or [up |-> FALSE, g, a] (to the      *)
(* children with that tag and these attributes). An element is known by     *)
(* the sequence of child numbers that lead to it from the root.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

IsAlias(n) == n.p # <<>>
RECURSIVE At(_, _)
At(doc, w) == IF w = <<>> THEN doc ELSE At(doc.k[Head(w)], Tail(w))

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* where a path leads from w, in document order
RECURSIVE Walk(_, _, _)
Walk(doc, w, path) ==
  IF path = <<>> THEN <<w>>
  ELSE LET s == Head(path)
       IN IF s.up THEN IF w = <<>> THEN <<>> ELSE Walk(doc, SubSeq(w, 1, Len(w) - 1), Tail(path))
          ELSE LET n == At(doc, w)
                   f(i) == IF n.k[i].g = s.g /\ s.a \subseteq n.k[i].a THEN Walk(doc, Append(w, i), Tail(path)) ELSE <<>>
               IN Flat([i \in 1..Len(n.k) |-> f(i)])

Prefixes(w) == {SubSeq(w, 1, i) : i \in 0..Len(w)}

---------------------------------------------------------------------------
\* What each element has in the end. An alias whose content would have to contain itself is a loop; there isn't
\* any such content, and doc[loose] marks the elements that have such an alias, or a copy of one.

RECURSIVE AnyLoose(_)
AnyLoose(r) == r.loose \/ \E i \in 1..Len(r.k) : AnyLoose(r.k[i])

\* the content of w, with `active' being that of elements it is to be part of
RECURSIVE Content(_, _, _)
Content(doc, w, active) ==
  LET n == At(doc, w)
      act == active \cup {w}
      f(i) == LET x == n.k[i]
              IN IF ~IsAlias(x) THEN LET c == Content(doc, Append(w, i), act)
                                     IN [k |-> <<[g |-> x.g, a |-> x.a, t |-> x.t, p |-> x.p, k |-> c.k, loose |-> c.loose]>>, loose |-> FALSE]
                 ELSE LET to == Walk(doc, w, x.p)
                      IN IF to = <<>> THEN [k |-> <<>>, loose |-> FALSE]
                         ELSE IF to[1] \in act THEN [k |-> <<>>, loose |-> TRUE]
                         ELSE LET c == Content(doc, to[1], act)
                              IN [k |-> c.k, loose |-> c.loose \/ \E j \in 1..Len(c.k) : AnyLoose(c.k[j])]
      r == [i \in 1..Len(n.k) |-> f(i)]
  IN [k |-> Flat([i \in 1..Len(n.k) |-> r[i].k]), loose |-> \E i \in 1..Len(n.k) : r[i].loose]
Resolved(doc) == LET c == Content(doc, <<>>, {})
                 IN [g |-> doc.g, a |-> doc.a, t |-> doc.t, p |-> doc.p, k |-> c.k, loose |-> c.loose]

\* as it should be, apart from what depends on loops
RECURSIVE Fits(_, _)
Fits(want, got) ==
  /\ want.g = got.g /\ want.a = got.a /\ want.t = got.t
  /\ want.loose \/ (Len(want.k) = Len(got.k) /\ \A i \in 1..Len(want.k) : Fits(want.k[i], got.k[i]))

---------------------------------------------------------------------------
\* What is said above isn't concerned with paths into what other aliases bring in

Where(doc) ==       \* all elements
  LET RECURSIVE rec(_, _)
      rec(n, w) == {w} \cup UNION {rec(n.k[i], Append(w, i)) : i \in 1..Len(n.k)}
  IN rec(doc, <<>>)
Holders(doc) == {w \in Where(doc) : \E i \in 1..Len(At(doc, w).k) : IsAlias(At(doc, w).k[i])}
\* elements in which a step down of the path looks
RECURSIVE Looks(_, _, _)
Looks(doc, w, path) ==
  IF path = <<>> THEN {}
  ELSE LET s == Head(path)
       IN IF s.up THEN IF w = <<>> THEN {} ELSE Looks(doc, SubSeq(w, 1, Len(w) - 1), Tail(path))
          ELSE {w} \cup LET n == At(doc, w)
               IN UNION {Looks(doc, Append(w, i), Tail(path)) : i \in {i \in 1..Len(n.k) : n.k[i].g = s.g /\ s.a \subseteq n.k[i].a}}
Stable(doc) == LET H == Holders(doc)
               IN \A w \in H : \A i \in 1..Len(At(doc, w).k) : IsAlias(At(doc, w).k[i]) => Looks(doc, w, At(doc, w).k[i].p) \cap H = {}

---------------------------------------------------------------------------
\* Resolving one alias at a time: any whose target has no aliases (left) below it

RECURSIVE HasAlias(_)
HasAlias(n) == \E i \in 1..Len(n.k) : IsAlias(n.k[i]) \/ HasAlias(n.k[i])
RECURSIVE Put(_, _, _, _)
Put(n, w, i, ks) ==     \* ks in place of child i of w
  IF w = <<>> THEN [n EXCEPT !.k = SubSeq(@, 1, i - 1) \o ks \o SubSeq(@, i + 1, Len(@))]
  ELSE [n EXCEPT !.k[Head(w)] = Put(@, Tail(w), i, ks)]
Steps(doc) ==
  UNION {LET n == At(doc, w)
             f(i) == LET to == Walk(doc, w, n.k[i].p)
                     IN IF to = <<>> THEN {Put(doc, w, i, <<>>)}
                        ELSE IF HasAlias(At(doc, to[1])) THEN {}
                        ELSE {Put(doc, w, i, At(doc, to[1]).k)}
         IN UNION {f(i) : i \in {i \in 1..Len(n.k) : IsAlias(n.k[i])}} : w \in Holders(doc)}
\* as far as it got, where loops are left over
RECURSIVE FitsSoFar(_, _)
FitsSoFar(want, got) ==
  /\ want.g = got.g /\ want.a = got.a /\ want.t = got.t
  /\ IF \E i \in 1..Len(got.k) : IsAlias(got.k[i]) THEN AnyLoose(want)
     ELSE Len(want.k) = Len(got.k) /\ \A i \in 1..Len(want.k) : FitsSoFar(want.k[i], got.k[i])
RECURSIVE NoAliases(_)
NoAliases(n) ==
  LET RECURSIVE sum(_)
      sum(i) == IF i > Len(n.k) THEN 0 ELSE (IF IsAlias(n.k[i]) THEN 1 ELSE NoAliases(n.k[i])) + sum(i + 1)
  IN sum(1)
=============================================================================
