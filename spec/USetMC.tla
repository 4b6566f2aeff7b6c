------------------------------- MODULE USetMC -------------------------------
(* A reader of set expressions, one token at a time with a stack, against    *)
(* what they denote. Every expression of up to MaxLen tokens.                *)
EXTENDS USet, TLC, Json
CONSTANTS MaxLen, Emit
VARIABLES ts, stack, result
vars == <<ts, stack, result>>

Items == {[k |-> "s", s |-> <<1>>], [k |-> "s", s |-> <<2>>], [k |-> "s", s |-> <<1, 2>>], [k |-> "r", lo |-> 1, hi |-> 3]}
U == UNION {Says(i) : i \in Items} \cup {Other}
T(x) == [k |-> x]
Frame(x) == [acc |-> {}, neg |-> x = "[^", op |-> "|", any |-> FALSE]
Apply(f, S) == [f EXCEPT !.acc = CASE f.op = "|" -> @ \cup S [] f.op = "&" -> @ \cap S [] f.op = "-" -> @ \ S, !.op = "|", !.any = TRUE]
Top == stack[Len(stack)]
WithTop(f) == [stack EXCEPT ![Len(stack)] = f]

Init == /\ \E x \in {"[", "[^"} : ts = <<T(x)>> /\ stack = <<Frame(x)>>
        /\ result = {}
Room(n) == Len(ts) + n + Len(stack) <= MaxLen
Open == \E x \in {"[", "[^"} : Room(2) /\ ts' = Append(ts, T(x)) /\ stack' = Append(stack, Frame(x)) /\ UNCHANGED result
Item == Top.op = "|" /\ \E i \in Items : Room(1) /\ ts' = Append(ts, i) /\ stack' = WithTop(Apply(Top, Says(i))) /\ UNCHANGED result
Op == Top.op = "|" /\ Top.any /\ \E x \in {"&", "-"} : Room(3) /\ ts' = Append(ts, T(x)) /\ stack' = WithTop([Top EXCEPT !.op = x]) /\ UNCHANGED result
End == /\ Top.op = "|"
       /\ ts' = Append(ts, T("]"))
       /\ LET S == IF Top.neg THEN U \ Top.acc ELSE Top.acc
          IN IF Len(stack) = 1 THEN stack' = <<>> /\ result' = S
             ELSE /\ stack' = [SubSeq(stack, 1, Len(stack) - 1) EXCEPT ![Len(stack) - 1] = Apply(@, S)]
                  /\ UNCHANGED result
Next == stack # <<>> /\ (Open \/ Item \/ Op \/ End)
Spec == Init /\ [][Next]_vars

Good == stack = <<>> => result = Denotes(ts, U)
Out == (stack = <<>> /\ Emit) => PrintT(<<"CASE", ToJson(ts)>>)
=============================================================================
