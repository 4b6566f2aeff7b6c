------------------------------ MODULE LangTagMC ------------------------------
(* Tags read one subtag at a time, from every sequence of a few subtags      *)
EXTENDS LangTag, Json
CONSTANTS MaxLen, Emit
VARIABLES ts, st
vars == <<ts, st>>

(* fr yue Latn us 419 1996 posix u x ab3 a *)
Subtags == {<<102, 114>>, <<121, 117, 101>>, <<108, 97, 116, 110>>, <<117, 115>>, <<52, 49, 57>>, <<49, 57, 57, 54>>, <<112, 111, 115, 105, 120>>,
            <<117>>, <<120>>, <<97, 98, 51>>, <<97>>}
Init == ts = <<>> /\ st = Start
Next == /\ Len(ts) < MaxLen
        /\ \E t \in Subtags : \E s \in Step(st, t) : st' = s /\ ts' = Append(ts, t)
Spec == Init /\ [][Next]_vars

Same(a, b) == [a EXCEPT !.exts = {}, !.phase = 0] = [b EXCEPT !.exts = {}, !.phase = 0] /\ ToSet(a.exts) = ToSet(b.exts)
Low(f) == [i \in 1..Len(f) |-> LowerOf(f[i])]
(* What is written reads as the same tag, is written so again, and has what was read *)
Back == ~Open(st) => \E s \in Reads(Start, Low(Full(st))) : Same(s, st) /\ Full(s) = Full(st)
Kept == LET f == Low(Full(st)) IN Len(f) = Len(ts) /\ \A t \in ToSet(ts) : Cardinality({i \in 1..Len(f) : f[i] = t}) = Cardinality({i \in 1..Len(ts) : ts[i] = t})
Machine == ~Open(st) => Reads(Start, ts) = {st}
Order == [][st.phase' >= st.phase]_vars
Out == (~Open(st) /\ Emit) => PrintT(<<"CASE", ToJson(ts)>>)
=============================================================================
