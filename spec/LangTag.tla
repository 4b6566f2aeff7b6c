------------------------------- MODULE LangTag -------------------------------
(* Language tags: reading a tag one subtag at a time, and writing what was   *)
(* read. A subtag is a sequence of character codes in lower case. And lists  *)
(* of equivalent tags.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

Alpha(c) == c \in 97..122
Digit(c) == c \in 48..57
Upper(c) == IF Alpha(c) THEN c - 32 ELSE c
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
AllAlpha(t) == \A i \in 1..Len(t) : Alpha(t[i])
AllDigit(t) == \A i \in 1..Len(t) : Digit(t[i])
X == <<120>>

IsLang(t) == Len(t) \in 2..3 /\ AllAlpha(t)
IsExtlang(t) == Len(t) = 3 /\ AllAlpha(t)
IsScript(t) == Len(t) = 4 /\ AllAlpha(t)
IsRegion(t) == (Len(t) = 2 /\ AllAlpha(t)) \/ (Len(t) = 3 /\ AllDigit(t))
IsVariant(t) == Len(t) \in 5..8 \/ (Len(t) = 4 /\ Digit(t[1]))

\* phases: 1 language, 2 extended language, 3 script, 4 region, 5 variants, 6 extensions, 7 private use
Start == [phase |-> 0, lang |-> <<>>, script |-> <<>>, region |-> <<>>, variants |-> <<>>, exts |-> <<>>]
\* whether more must follow
Open(st) == st.phase = 0 \/ (st.exts # <<>> /\ st.exts[Len(st.exts)].subs = <<>>)
Singletons(st) == {st.exts[i].s : i \in 1..Len(st.exts)}
InExt(st, t) == [st EXCEPT !.exts[Len(st.exts)].subs = Append(@, t)]

\* what reading one more subtag gives: the set is empty if the tag isn't well formed
Step(st, t) ==
  IF st.phase = 7 THEN {InExt(st, t)}
  ELSE IF Len(t) = 1 THEN
    IF Open(st) \/ t \in Singletons(st) THEN {}
    ELSE {[st EXCEPT !.phase = IF t = X THEN 7 ELSE 6, !.exts = Append(@, [s |-> t, subs |-> <<>>])]}
  ELSE IF Len(t) > 8 THEN {}
  ELSE IF st.phase = 6 THEN {InExt(st, t)}
  ELSE IF st.phase = 0 THEN IF IsLang(t) THEN {[st EXCEPT !.phase = 1, !.lang = <<t>>]} ELSE {}
  ELSE IF st.phase = 1 /\ IsExtlang(t) THEN {[st EXCEPT !.phase = 2, !.lang = Append(@, t)]}
  ELSE IF st.phase <= 2 /\ IsScript(t) THEN {[st EXCEPT !.phase = 3, !.script = t]}
  ELSE IF st.phase <= 3 /\ IsRegion(t) THEN {[st EXCEPT !.phase = 4, !.region = t]}
  ELSE IF IsVariant(t) /\ ~\E i \in 1..Len(st.variants) : st.variants[i] = t
       THEN {[st EXCEPT !.phase = 5, !.variants = Append(@, t)]}
  ELSE {}

RECURSIVE Reads(_, _)
Reads(st, ts) == IF ts = <<>> THEN IF Open(st) THEN {} ELSE {st}
                 ELSE UNION {Reads(s, Tail(ts)) : s \in Step(st, Head(ts))}

\* subtags of the full form, each as written
Title(t) == [i \in 1..Len(t) |-> IF i = 1 THEN Upper(t[i]) ELSE t[i]]
Caps(t) == [i \in 1..Len(t) |-> Upper(t[i])]
ExtOrder(exts) == SortSeq(exts, LAMBDA a, b : a.s # b.s /\ (b.s = X \/ (a.s # X /\ a.s[1] < b.s[1])))
Full(st) == st.lang \o (IF st.script = <<>> THEN <<>> ELSE <<Title(st.script)>>) \o (IF st.region = <<>> THEN <<>> ELSE <<Caps(st.region)>>)
            \o st.variants \o FoldLeft(LAMBDA acc, e : acc \o <<e.s>> \o e.subs, <<>>, ExtOrder(st.exts))

LowerOf(t) == [i \in 1..Len(t) |-> Lower(t[i])]
RECURSIVE SplitAt(_, _)
SplitAt(s, seps) == LET at == {i \in 1..Len(s) : s[i] \in seps}
                    IN IF at = {} THEN <<s>>
                       ELSE LET i == CHOOSE n \in at : \A m \in at : n <= m
                            IN <<SubSeq(s, 1, i - 1)>> \o SplitAt(SubSeq(s, i + 1, Len(s)), seps)
RECURSIVE Joined(_)
Joined(ts) == IF Len(ts) <= 1 THEN FoldLeft(LAMBDA a, b : a \o b, <<>>, ts) ELSE Head(ts) \o <<45>> \o Joined(Tail(ts))
ReadTag(s) == Reads(Start, [i \in 1..Len(SplitAt(s, {45, 95})) |-> LowerOf(SplitAt(s, {45, 95})[i])])
=============================================================================
