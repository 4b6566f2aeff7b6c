-------------------------------- MODULE Alts --------------------------------
(***************************************************************************)
(* The alternates of the items of an LDML document.                        *)
(*                                                                         *)
(* An item shows one primary value and keeps other proposed values as       *)
(* alternates, each under a name.  Every value has a draft status, rated    *)
(* from 0 (approved, best) to 6 (suspect); -1 is a value not marked with a  *)
(* status.  What an unmarked value counts as depends on the operation: see  *)
(* Rate.                                                                    *)
(*                                                                         *)
(* Operations are given as sets of possible results, since where several    *)
(* alternates are equally good any of them may be promoted.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoItem == [has |-> FALSE]
Item(p, as) == [has |-> TRUE, prim |-> p, alts |-> as]
Val(t, d) == [t |-> t, d |-> d]

\* alternates are functions from a finite set of names to values
NoAlts == [x \in {} |-> Val("", 0)]
Put(as, n, v) == [x \in DOMAIN as \cup {n} |-> IF x = n THEN v ELSE as[x]]
Del(as, n) == [x \in DOMAIN as \ {n} |-> as[x]]

\* The rating of value v, dflt (or if that is -1 the document's default) if it is not marked
Rate(v, dflt, doc) == IF v.d # -1 THEN v.d ELSE IF dflt # -1 THEN dflt ELSE doc

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

(***************************************************************************)
(* Propose value e under alternate name n.                                  *)
(***************************************************************************)
Add(it, e, n, doc) ==
  IF ~it.has THEN {Item(e, NoAlts)}
  ELSE LET o == Rate(e, -1, doc)
           t == Rate(it.prim, e.d, doc)
       IN IF o < t
          THEN {Item(e, Put(it.alts, n, it.prim))}           \* promoted, the old one is kept
          ELSE IF n \in DOMAIN it.alts /\ Rate(it.alts[n], e.d, doc) < o
          THEN {it}                                           \* a better one is already there
          ELSE {Item(it.prim, Put(it.alts, n, e))}

(***************************************************************************)
(* Give the primary value status d. If that makes some alternate better     *)
(* than it, the best becomes primary and the old primary takes its place    *)
(* (or the place n, if one is asked for, which also wins ties).  ud is the  *)
(* status taken for unmarked alternates (-1 for the document's default).    *)
(***************************************************************************)
Change(it, d, n, ud, doc) ==
  IF ~it.has THEN {it}
  ELSE LET R(k) == Rate(it.alts[k], ud, doc)
           D == DOMAIN it.alts
           best == SetMin({d} \cup {R(k) : k \in D})
           old == Val(it.prim.t, d)
           cands == IF n # "" /\ n \in D /\ R(n) = best THEN {n}
                    ELSE IF best < d THEN {k \in D : R(k) = best} ELSE {}
       IN IF cands = {} THEN {Item(old, it.alts)}
          ELSE {Item(it.alts[k], Put(Del(it.alts, k), IF n # "" THEN n ELSE k, old)) : k \in cands}

(***************************************************************************)
(* Make sure the item has text t with at least status d (-1: don't care).   *)
(* Matching values that are worse are improved, an improved alternate that  *)
(* is now better than the primary changes places with it.                   *)
(***************************************************************************)
Ensure(it, t, d, n, cn, ud, doc) ==
  LET new == Val(t, IF d # -1 THEN d ELSE ud)
  IN IF ~it.has THEN {Item(new, NoAlts)}
     ELSE LET M == IF d = -1 THEN {} ELSE {k \in DOMAIN it.alts : it.alts[k].t = t}
              P == it.prim.t = t
              imp == {k \in M : Rate(it.alts[k], -1, doc) > d}
              bumped(x) == Item(x.prim, [k \in DOMAIN x.alts |->
                               IF k \in imp THEN Val(x.alts[k].t, d) ELSE x.alts[k]])
          IN IF ~P /\ M = {} THEN Add(it, new, n, doc)
             ELSE IF P THEN
               \* the primary is improved first, which may promote a better alternate;
               \* the matching values that are still worse are then improved in place
               IF d # -1 /\ Rate(it.prim, -1, doc) > d
               THEN {LET better(v) == IF v.t = t /\ Rate(v, -1, doc) > d THEN Val(t, d) ELSE v
                     IN Item(better(y.prim), [k \in DOMAIN y.alts |-> better(y.alts[k])])
                     : y \in Change(it, d, cn, ud, doc)}
               ELSE {bumped(it)}
             ELSE IF imp # {} /\ d < Rate(it.prim, -1, doc)
             THEN LET b == bumped(it)
                  IN {Item(b.alts[k], Put(b.alts, k, it.prim)) : k \in imp}
             ELSE {bumped(it)}

\* Writing a document drops the statuses that are its default
Unmark(v, doc) == IF v.d = doc THEN Val(v.t, -1) ELSE v
Saved(it, doc) == IF ~it.has THEN it
                  ELSE Item(Unmark(it.prim, doc), [k \in DOMAIN it.alts |-> Unmark(it.alts[k], doc)])

(***************************************************************************)
(* What can be seen of an item: the status of unmarked values is the        *)
(* document's.                                                              *)
(***************************************************************************)
Shown(v, doc) == Val(v.t, IF v.d = -1 THEN doc ELSE v.d)
Show(it, doc) == IF ~it.has THEN it
                 ELSE Item(Shown(it.prim, doc), [k \in DOMAIN it.alts |-> Shown(it.alts[k], doc)])

\* Reading siblings with the same key: of those with the same alternate name the best
\* (the first of equals) is kept, the one without an alternate name is the primary
RECURSIVE Load(_, _, _)
Load(vals, it, doc) ==
  IF vals = <<>> THEN it
  ELSE LET x == Head(vals)
           v == Val(x.t, x.d)
           next == IF x.alt = ""
                   THEN IF it.has THEN IF Rate(v, -1, doc) < Rate(it.prim, -1, doc) THEN Item(v, it.alts) ELSE it
                        ELSE Item(v, NoAlts)
                   ELSE IF x.alt \in DOMAIN it.alts /\ Rate(v, -1, doc) >= Rate(it.alts[x.alt], -1, doc) THEN it
                   ELSE Item(it.prim, Put(it.alts, x.alt, v))
       IN Load(Tail(vals), next, doc)

\* The name an alternate gets: "proposed" unless one is given, followed by the uid
AltName(n, uid) == (IF n = "" THEN "proposed" ELSE n) \o (IF uid = "" THEN "" ELSE "-" \o uid)

=============================================================================
