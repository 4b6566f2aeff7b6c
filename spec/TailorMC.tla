------------------------------ MODULE TailorMC ------------------------------
(* Every tailoring of up to MaxItems strings over a small alphabet.          *)
EXTENDS Tailor, TLC, Json
CONSTANTS MaxItems, MaxResets, Emit
VARIABLES o,        \* the order
          cur,      \* what the next string goes after, <<>> before the first reset
          before,   \* whether it goes before instead, and at what strength
          rules,    \* the tailoring
          clean     \* nothing was contested
vars == <<o, cur, before, rules, clean>>

E(s, d) == [s |-> s, d |-> d, t |-> 0]
Default == << E(<<97>>, 1), E(<<65>>, 3), E(<<98>>, 1), E(<<99>>, 1) >>
Bases == {<<97>>, <<65>>, <<98>>}
Strings == {<<120>>, <<99>>, <<99, 104>>, <<65>>, <<98>>}
Used == UNION {{r.items[i].s : i \in 1..Len(r.items)} : r \in {rules[j] : j \in 1..Len(rules)}}
N == Cardinality(Used)
Last == rules[Len(rules)]

Init == o = Default /\ cur = <<>> /\ before = 0 /\ rules = <<>> /\ clean = TRUE
Reset == /\ Len(rules) < MaxResets /\ N < MaxItems
         /\ (rules # <<>> => Last.items # <<>>)
         /\ \E b \in Bases \cup Used, n \in 0..3 :
              /\ cur' = b /\ before' = n
              /\ rules' = Append(rules, [base |-> b, before |-> n, items |-> <<>>])
         /\ UNCHANGED <<o, clean>>
Relate == /\ cur # <<>> /\ N < MaxItems
          /\ \E s \in Strings \ (Used \cup {cur}), l \in (IF before > 0 THEN {before} ELSE 1..4) :
               /\ clean' = (clean /\ ~Contested(o, cur, before > 0, l, s))
               /\ o' = Place(o, cur, before > 0, l, s)
               /\ cur' = s /\ before' = 0
               /\ rules' = [rules EXCEPT ![Len(rules)].items = Append(@, [l |-> l, s |-> s, e |-> <<>>])]
Next == Reset \/ Relate
Spec == Init /\ [][Next]_vars

W(x, s) == <<Weight(x, At(x, s))>>
Level(x, a, b) == LET i == At(x, a) j == At(x, b) IN IF i < j THEN <<Diff(x, i, j), IF Diff(x, i, j) = 4 THEN 0 ELSE 1>>
                                                      ELSE <<Diff(x, j, i), IF Diff(x, j, i) = 4 THEN 0 ELSE 2>>
All(x) == {x[i].s : i \in 1..Len(x)}

(* the weights say what the order says *)
Weights == \A a, b \in All(o) : Compare(W(o, a), W(o, b)) = Level(o, a, b)

(* what is tailored goes next to where it should, and nothing else moves *)
Placed ==
  [][ o' # o =>
      LET s == cur'
          l == Last'.items[Len(Last'.items)].l
          rest == All(o) \ {s}
      IN /\ \A a, b \in rest : Level(o, a, b) = Level(o', a, b)
         /\ Level(o', cur, s) = <<l, IF l = 4 THEN 0 ELSE IF before > 0 THEN 2 ELSE 1>>
         /\ \A a \in rest : IF before = 0 THEN Level(o, cur, a)[2] = 1 /\ Level(o, cur, a)[1] <= l => Level(o', s, a)[2] = 1
                            ELSE Level(o, cur, a)[2] = 2 /\ Level(o, cur, a)[1] <= l => Level(o', s, a)[2] = 2 ]_vars

(* the members of a chain differ by the strongest difference between them,   *)
(* unless one of them was moved since                                       *)
Chain == clean => \A r \in 1..Len(rules) : \A i, j \in 1..Len(rules[r].items) :
           i < j => LET it == rules[r].items
                        d == MinOf({it[x].l : x \in (i + 1)..j})
                    IN Level(o, it[i].s, it[j].s) = <<d, IF d = 4 THEN 0 ELSE 1>>
Out == (Emit /\ clean /\ N = MaxItems) => PrintT(<<"CASE", ToJson(rules)>>)
=============================================================================
