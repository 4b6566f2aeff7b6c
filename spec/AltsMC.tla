------------------------------- MODULE AltsMC -------------------------------
(* All histories of operations on one item, in small constants: the design  *)
(* keeps its promises, and every transition is printed as a history to be    *)
(* replayed in the code.                                                     *)
EXTENDS Alts, TLC, Json

CONSTANTS Texts, Drafts, Names, DocDraft, UseDraft_, MaxLen, Emit
UseDraft == IF UseDraft_ = 7 THEN -1 ELSE UseDraft_          \* configurations cannot have -1

VARIABLES it, hist, last
vars == <<it, hist, last>>
View == it

Op(o, t, d, n) == [op |-> o, i |-> "i1", t |-> t, d |-> d, alt |-> n]

Init == it = NoItem /\ hist = <<>> /\ last = [op |-> "none"]

Do(op, posts) == /\ it' \in posts
                 /\ hist' = Append(hist, op)
                 /\ last' = op
                 /\ (Emit => PrintT(<<"CASE", ToJson([ops |-> hist'])>>))

nm(n) == AltName(n, "")
cn(n) == IF n = "" THEN "" ELSE n
ud(d) == IF d # -1 THEN d ELSE UseDraft

Next == /\ Len(hist) < MaxLen
        /\ \/ \E t \in Texts, d \in Drafts \cup {-1}, n \in Names :
                Do(Op("add", t, d, n), Add(it, Val(t, ud(d)), nm(n), DocDraft))
           \/ \E t \in Texts, d \in Drafts \cup {-1}, n \in Names :
                Do(Op("ensure", t, d, n), Ensure(it, t, d, nm(n), cn(n), UseDraft, DocDraft))
           \/ it.has /\ \E d \in Drafts, n \in Names :
                Do(Op("change", "", d, n), Change(it, d, cn(n), UseDraft, DocDraft))
           \/ it.has /\ Do(Op("reload", "", -1, ""), {Saved(it, DocDraft)})

Spec == Init /\ [][Next]_vars

Values(x) == IF ~x.has THEN {} ELSE {x.prim.t} \cup {x.alts[k].t : k \in DOMAIN x.alts}
R(v) == Rate(v, -1, DocDraft)

\* A proposal becomes primary only when strictly better, and the value it displaces is kept
OnlyBetterDisplaces ==
  [][last'.op = "add" /\ it.has /\ it'.prim # it.prim =>
       /\ R(it'.prim) < Rate(it.prim, last'.d, DocDraft)
       /\ it.prim \in {it'.alts[k] : k \in DOMAIN it'.alts}]_vars

\* A proposal that does not become primary is kept unless a strictly better value has its name
ProposalKept ==
  [][last'.op = "add" /\ it.has => \/ it'.prim.t = last'.t
                                   \/ it'.alts[nm(last'.alt)].t = last'.t
                                   \/ R(it.alts[nm(last'.alt)]) < R(Val(last'.t, ud(last'.d)))]_vars

\* Changing a status never loses a value, unless the place to put the old one was given
NothingLost ==
  [][last'.op = "change" /\ last'.alt = "" => Values(it') = Values(it)]_vars
DemotedKept ==
  [][last'.op \in {"change", "ensure"} /\ it.has => it.prim.t \in Values(it')]_vars

\* As long as every value is marked, no alternate is better than the primary
Marked(x) == x.prim.d # -1 /\ \A k \in DOMAIN x.alts : x.alts[k].d # -1
BestIsPrimary ==
  [][it.has /\ Marked(it) /\ (it.has => \A k \in DOMAIN it.alts : R(it.prim) <= R(it.alts[k])) /\ Marked(it')
      => \A k \in DOMAIN it'.alts : R(it'.prim) <= R(it'.alts[k])]_vars

\* Afterwards the item has the text that was ensured, at least as well attested
Ensured ==
  [][last'.op = "ensure" =>
        \/ last'.t \in Values(it')
        \/ it.has /\ nm(last'.alt) \in DOMAIN it.alts /\ R(it.alts[nm(last'.alt)]) < R(Val(last'.t, ud(last'.d)))]_vars

TypeOK == it.has => it.prim.d \in -1..6 /\ \A k \in DOMAIN it.alts : it.alts[k].d \in -1..6
=============================================================================
