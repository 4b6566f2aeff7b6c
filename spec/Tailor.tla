------------------------------- MODULE Tailor -------------------------------
(* Collation tailorings. The order of collation elements is a sequence of    *)
(*   [s |-> the string, d |-> how it differs from the one before it,         *)
(*    t |-> 0 untailored, 1 placed after another, 2 placed before another]   *)
(* A difference is 1 primary to 3 tertiary, or 4 if they sort the same.      *)
(* Tailoring takes an element out of the order, if it was there, and puts it *)
(* elsewhere. Strings sort by the elements they are made of.                 *)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

At(o, s) == IF \E i \in 1..Len(o) : o[i].s = s THEN CHOOSE i \in 1..Len(o) : o[i].s = s ELSE 0
(* difference of the elements at i < j *)
Diff(o, i, j) == IF i = j THEN 4 ELSE MinOf({o[x].d : x \in (i + 1)..j})

Remove(o, s) ==
  LET i == At(o, s)
  IN IF i = 0 THEN o
     ELSE SubSeq(o, 1, i - 1) \o
          (IF i = Len(o) THEN <<>> ELSE <<[o[i + 1] EXCEPT !.d = Min2(@, o[i].d)]>> \o SubSeq(o, i + 2, Len(o)))

(* the last of the elements that differ from the one at i by less than l *)
GroupEnd(o, i, l) == MaxOf({i} \cup {j \in (i + 1)..Len(o) : \A x \in (i + 1)..j : o[x].d > l})
GroupStart(o, i, l) == MinOf({i} \cup {j \in 1..(i - 1) : \A x \in (j + 1)..i : o[x].d > l})

After(o, i, l, s) ==
  LET j == GroupEnd(o, i, l)
  IN SubSeq(o, 1, j) \o <<[s |-> s, d |-> l, t |-> 1]>> \o SubSeq(o, j + 1, Len(o))
Before(o, i, l, s) ==
  LET g == GroupStart(o, i, l)
  IN SubSeq(o, 1, g - 1) \o <<[s |-> s, d |-> o[g].d, t |-> 2], [o[g] EXCEPT !.d = l]>> \o SubSeq(o, g + 1, Len(o))

(* s goes after, or before, base. base isn't s *)
Place(o, base, before, l, s) ==
  LET p == Remove(o, s)
      i == At(p, base)
  IN IF before THEN Before(p, i, l, s) ELSE After(p, i, l, s)

(* Two strings put in the same place: what order they get isn't laid down *)
Contested(o, base, before, l, s) ==
  LET p == Remove(o, s)
      i == At(p, base)
      j == GroupEnd(p, i, l)
      g == GroupStart(p, i, l)
  IN IF before THEN p[i].t # 0 \/ \E x \in 1..(g - 1) : p[x].t = 2 /\ (\A y \in x..(g - 1) : p[y].t # 0) /\ Diff(p, x, g) = l
     ELSE l < 4 /\ j < Len(p) /\ p[j + 1].d = l /\ p[j + 1].t = 1

---------------------------------------------------------------------------
(* strings *)

(* weights of the element at i, of the three levels, as counts of steps *)
Weight(o, i) ==
  LET p == MaxOf({1} \cup {x \in 1..i : o[x].d <= 1})
      q == MaxOf({p} \cup {x \in p..i : o[x].d <= 2})
  IN << Cardinality({x \in 1..i : o[x].d <= 1}),
        Cardinality({x \in (p + 1)..i : o[x].d = 2}),
        Cardinality({x \in (q + 1)..i : o[x].d = 3}) >>

(* the first difference of two sequences: 0 the same, 1 a first, 2 b first *)
RECURSIVE First(_, _)
First(a, b) == CASE a = b -> 0 [] a = <<>> -> 1 [] b = <<>> -> 2
                 [] OTHER -> IF a[1] < b[1] THEN 1 ELSE IF a[1] > b[1] THEN 2 ELSE First(Tail(a), Tail(b))
(* <<level, first>> of sequences of weights *)
Compare(a, b) ==
  LET f == [l \in 1..3 |-> First([x \in 1..Len(a) |-> a[x][l]], [x \in 1..Len(b) |-> b[x][l]])]
  IN CASE f[1] # 0 -> <<1, f[1]>> [] f[2] # 0 -> <<2, f[2]>> [] f[3] # 0 -> <<3, f[3]>> [] OTHER -> <<4, 0>>
=============================================================================
