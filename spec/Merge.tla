------------------------------- MODULE Merge -------------------------------
(***************************************************************************)
(* Three way merging of documents without repeated siblings: what an item   *)
(* becomes given what it is in ours (t), theirs (o) and their common base   *)
(* (b). Each is a sequence of at most one element.                          *)
(***************************************************************************)
EXTENDS LdmlTree
CONSTANTS Drafts,     \* drafts are in use: better attested additions win
          TheirDels,  \* what they delete goes even if we changed it
          Clash(_, _, _), AttClash(_, _, _, _)   \* the comments that record clashes

\* Items are told apart by their distinguishing attributes and the alternate they are
ItemKey(n) == <<Key(n, Drafts), At(n, N.alt)>>

\* What an element says, its attestation aside
RECURSIVE Says(_)
Says(n) == [g |-> n.g, a |-> {p \in AtSet(n) : ~(Drafts /\ p[1] = N.draft)}, t |-> NormText(n.t),
            k |-> {Says(n.k[i]) : i \in 1..Len(n.k)}]
Same(x, y) == \/ x = <<>> /\ y = <<>>
              \/ x # <<>> /\ y # <<>> /\ Says(x[1]) = Says(y[1])
RateOf(n, dd) == DraftRate(IF HasAt(n, N.draft) THEN At(n, N.draft) ELSE dd)

Sub(n, key) == LET I == {i \in 1..Len(n.k) : ItemKey(n.k[i]) = key}
               IN IF I = {} THEN <<>> ELSE <<n.k[CHOOSE i \in I : TRUE]>>
KeysOf(n) == {ItemKey(n.k[i]) : i \in 1..Len(n.k)}
Bare(n) == [n EXCEPT !.t = 0, !.k = <<>>, !.a = SelectSeq(n.a, LAMBDA p : Distinguishing(n.g, p[1]))]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

RECURSIVE Item(_, _, _, _), Both(_, _, _, _)
\* dd is the status of what isn't marked with one
Item(t, o, b, dd) ==
  IF Same(t, o) THEN t                              \* both agree
  ELSE IF Same(t, b) THEN o                         \* only they changed it
  ELSE IF Same(o, b) THEN t                         \* only we did
  ELSE IF t = <<>> THEN o                           \* changed against removed
  ELSE IF o = <<>> THEN IF TheirDels /\ b # <<>> THEN <<>> ELSE t
  ELSE IF b # <<>> THEN <<Both(t[1], o[1], b[1], dd)>>
  ELSE IF Len(t[1].k) > 0 \/ Len(o[1].k) > 0        \* both added it
       THEN <<Both(t[1], o[1], Bare(t[1]), dd)>>
  ELSE IF Drafts /\ RateOf(o[1], dd) <= RateOf(t[1], dd) THEN o
  ELSE t

\* An element that both changed
Both(t, o, b, dd) ==
  LET keys == KeysOf(t) \cup KeysOf(o) \cup KeysOf(b)
      R == [key \in keys |-> Item(Sub(t, key), Sub(o, key), Sub(b, key), dd)]
      kids == Flat([i \in 1..Len(t.k) |-> R[ItemKey(t.k[i])]]) \o Flat(SeqOf({R[key] : key \in (KeysOf(o) \ KeysOf(t))}))
      tx(n) == NormText(n.t)
      clash == tx(t) # tx(b) /\ tx(o) # tx(b) /\ tx(t) # tx(o)
      names == {p[1] : p \in AtSet(t) \cup AtSet(o)} \ (IF Drafts THEN {N.draft} ELSE {})
      av(n, x) == IF HasAt(n, x) THEN <<At(n, x)>> ELSE <<>>
      val(x) == IF av(t, x) = av(b, x) THEN av(o, x)
                ELSE IF av(t, x) = <<>> /\ av(o, x) # av(b, x) THEN av(o, x)      \* changed against removed
                ELSE av(t, x)
      aclash(x) == av(t, x) # av(b, x) /\ av(o, x) # av(b, x) /\ av(t, x) # av(o, x) /\ av(t, x) # <<>> /\ av(o, x) # <<>>
      with == [t EXCEPT !.k = kids, !.t = IF tx(t) = tx(b) THEN o.t ELSE t.t,
                        !.c = IF clash THEN t.c \o <<Clash(t.t, o.t, b.t)>> ELSE t.c]
  IN IF clash /\ Drafts THEN with                   \* all of it is ours
     ELSE [with EXCEPT !.a = SelectSeq(t.a, LAMBDA p : Drafts /\ p[1] = N.draft)
                             \o Flat(SeqOf({IF val(x) = <<>> THEN <<>> ELSE <<<<x, val(x)[1]>>>> : x \in names})),
                       !.c = @ \o SeqOf({AttClash(x, At(t, x), At(o, x), av(b, x)) : x \in {x \in names : aclash(x)}})]

MergeDocs(t, o, b, dd) == Both(t, o, b, dd)
=============================================================================
