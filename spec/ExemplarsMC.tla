----------------------------- MODULE ExemplarsMC -----------------------------
(* Every small text read a cluster at a time, then marks parted from bases   *)
(* in any order                                                              *)
EXTENDS Exemplars, Json, TLC
CONSTANTS Alphabet, MaxLen, Knowns, Many, Emit
VARIABLES text, known, at, read, cuts, phase, pool
vars == <<text, known, at, read, cuts, phase, pool>>

K(n) == CASE n = 0 -> {} [] n = 1 -> {<<97, 98>>} [] n = 2 -> {<<97, 98>>, <<97, 98, 97>>, <<98>>} [] OTHER -> {<<97, 769>>}
Init == /\ text = <<>> /\ known \in {K(n) : n \in Knowns} /\ at = 1 /\ read = <<>> /\ cuts = {1} /\ phase = "write" /\ pool = {}
Write == /\ phase = "write" /\ Len(text) < MaxLen /\ \E c \in Alphabet : text' = Append(text, c)
         /\ Meant(text')
         /\ UNCHANGED <<known, at, read, cuts, phase, pool>>
Start == phase = "write" /\ text # <<>> /\ phase' = "read" /\ UNCHANGED <<text, known, at, read, cuts, pool>>
ReadOne == /\ phase = "read" /\ at <= Len(text)
           /\ LET x == At(text, at, known)
              IN /\ read' = IF x.by = "skip" THEN read ELSE Append(read, x)
                 /\ at' = x.to
                 /\ cuts' = cuts \cup {x.to}
           /\ UNCHANGED <<text, known, phase, pool>>
ReadAll == /\ phase = "read" /\ at > Len(text)
           /\ phase' = "part" /\ pool' = Rest({read[i].c : i \in 1..Len(read)})
           /\ UNCHANGED <<text, known, at, read, cuts>>
S0 == Rest({read[i].c : i \in 1..Len(read)})
Part == /\ phase = "part"
        /\ \E c \in pool : \E i \in 1..Len(c.trail) :
             /\ c.base # <<>>
             /\ \/ Separate(S0, Many, c.trail[i])
                \/ \E d \in pool : \E j \in 2..Len(d.trail) : d.base # <<>> /\ d.trail[j] = c.trail[i] /\ d.trail[j - 1] \in Mark /\ Class(d.trail[j - 1]) = Class(d.trail[j])
             /\ pool' = (pool \ {c}) \cup {[base |-> <<>>, trail |-> <<c.trail[i]>>],
                                           [base |-> c.base, trail |-> SubSeq(c.trail, 1, i - 1) \o SubSeq(c.trail, i + 1, Len(c.trail))]}
        /\ UNCHANGED <<text, known, at, read, cuts, phase>>
Next == Write \/ Start \/ ReadOne \/ ReadAll \/ Part
Spec == Init /\ [][Next]_vars

\* every character is read once: in one cluster, or skipped
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Len(Text(Head(q).c)) + Sum(Tail(q))
Covered == /\ (phase = "part" => read = Read(text, known))
           /\ Sum(read) + Cardinality({i \in cuts : i <= Len(text) /\ i # at /\ At(text, i, known).by = "skip"}) = at - 1
\* and it does not matter where the text is cut, between clusters
Clusters(q) == [i \in 1..Len(q) |-> <<q[i].c, q[i].case>>]
Divisible == phase = "part" => \A i \in cuts : Clusters(Read(SubSeq(text, 1, i - 1), known) \o Read(SubSeq(text, i, Len(text)), known)) = Clusters(read)
\* what is parted is right when there is nothing left to part
Result == {Text(c) : c \in pool}
Over == phase = "part" /\ \A c \in pool : c.base = <<>> \/ \A i \in 1..Len(c.trail) : ~Separate(S0, Many, c.trail[i])
PartedRight == /\ (phase = "part" => Seen(S0, Result) /\ Complete(S0, Many, Result) /\ Together(S0, Many, Result))
               /\ (Over => Parted(S0, Many, Result))
Out == (Emit /\ phase = "part" /\ pool = S0) => PrintT(<<"CASE", ToJson([text |-> text, known |-> SetToSeq(known)])>>)
=============================================================================
