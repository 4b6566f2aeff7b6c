-------------------------------- MODULE USet --------------------------------
(***************************************************************************)
(* Unicode set expressions. An expression is a sequence of tokens           *)
(*   [k |-> "["], [k |-> "[^"], [k |-> "]"]                                 *)
(*   [k |-> "s", s |-> string]       a character or string                  *)
(*   [k |-> "r", lo, hi]             the characters between, both included  *)
(*   [k |-> "&"], [k |-> "-"]        intersection and difference, of what   *)
(*                                   the set has so far with the set next   *)
(* Strings are sequences of numbers, the characters.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

IsOpen(t) == t.k \in {"[", "[^"}
IsItem(t) == t.k \in {"s", "r"}
IsOp(t) == t.k \in {"&", "-"}
Says(t) == IF t.k = "s" THEN {t.s} ELSE {<<c>> : c \in t.lo..t.hi}     \* of an item

\* Whatever isn't mentioned is alike
Other == <<>>
Universe(ts) == UNION {Says(ts[i]) : i \in {i \in 1..Len(ts) : IsItem(ts[i])}} \cup {Other}

---------------------------------------------------------------------------
\* What an expression denotes

RECURSIVE Close(_, _, _)
Close(ts, i, depth) ==      \* where what is open at i closes
  IF ts[i].k = "]" THEN IF depth = 0 THEN i ELSE Close(ts, i + 1, depth - 1)
  ELSE Close(ts, i + 1, IF IsOpen(ts[i]) THEN depth + 1 ELSE depth)

RECURSIVE In(_, _), InBody(_, _, _)
\* whether string x is in the set that the expression ts, all in brackets, denotes
In(ts, x) == InBody(SubSeq(ts, 2, Len(ts) - 1), x, FALSE) # (ts[1].k = "[^")
\* whether it is in what is inside of brackets, given whether it is in what is before that
InBody(ts, x, before) ==
  IF ts = <<>> THEN before
  ELSE IF IsItem(ts[1]) THEN InBody(Tail(ts), x, before \/ x \in Says(ts[1]))
  ELSE LET at == IF IsOp(ts[1]) THEN 2 ELSE 1
           c == Close(ts, at + 1, 0)
           it == In(SubSeq(ts, at, c), x)
           now == IF at = 1 THEN before \/ it ELSE IF ts[1].k = "&" THEN before /\ it ELSE before /\ ~it
       IN InBody(SubSeq(ts, c + 1, Len(ts)), x, now)

\* Those denoted of a universe
Denotes(ts, U) == {x \in U : In(ts, x)}

---------------------------------------------------------------------------
\* Strings that take one member of each of a sequence of sets in turn
RECURSIVE Product(_)
Product(sets) == IF sets = <<>> THEN {<<>>} ELSE {a \o b : a \in Head(sets), b \in Product(Tail(sets))}
=============================================================================
