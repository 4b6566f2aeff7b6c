------------------------------ MODULE Registry ------------------------------
(* The registry of language subtags: a file of records separated by lines,   *)
(* each a type, a subtag (or a tag) and fields, long ones being folded.      *)
(* Lines are [k |-> "sep"], [k |-> "fold", v] and [k |-> "field", f, v]      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

(* What a file denotes: records, fields unfolded, values collected by name   *)
RECURSIVE Records(_)
Records(ls) == LET at == {i \in 1..Len(ls) : ls[i].k = "sep"}
               IN IF at = {} THEN <<ls>>
                  ELSE LET i == CHOOSE n \in at : \A m \in at : n <= m
                       IN <<SubSeq(ls, 1, i - 1)>> \o Records(SubSeq(ls, i + 1, Len(ls)))
RECURSIVE Unfold(_)
Unfold(ls) == IF ls = <<>> THEN <<>>
              ELSE LET n == Len(ls)
                       u == Unfold(SubSeq(ls, 1, n - 1))
                   IN IF ls[n].k = "fold" THEN [u EXCEPT ![Len(u)].v = @ \o " " \o ls[n].v] ELSE Append(u, ls[n])
Values(u, f) == LET m == SelectSeq(u, LAMBDA l : l.f = f) IN [i \in 1..Len(m) |-> m[i].v]
Fields(u) == {u[i].f : i \in 1..Len(u)}
Denotes(ls) ==
  LET rs == {Unfold(r) : r \in ToSet(Records(ls))}
  IN {[type |-> Values(u, "type")[1], subtag |-> Values(u, "subtag")[1],
       fields |-> {<<f, Values(u, f)>> : f \in Fields(u) \ {"type", "subtag"}}] : u \in {r \in rs : "type" \in Fields(r) /\ "subtag" \in Fields(r)}}
=============================================================================
