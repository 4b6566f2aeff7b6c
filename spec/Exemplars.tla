------------------------------ MODULE Exemplars ------------------------------
(* What exemplars are found in texts.                                        *)
(*                                                                           *)
(* A text is a sequence of characters (code points, canonically decomposed), *)
(* read as clusters: what is known already (multigraphs) as it is, a         *)
(* punctuation mark alone, otherwise a letter or number, lower case, with    *)
(* its nuktas as the base and the marks and joiners after it as trailers.    *)
(* Clusters are counted. Then punctuation and numbers are set apart, marks   *)
(* that are productive, or never part of a letter, are separated from their  *)
(* bases, and the others are left with theirs; what results goes in the main *)
(* or auxiliary exemplars by how often it was seen.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* Of the characters that texts are made of here, from the Unicode standard *)
Punct   == {33, 39, 44, 45, 46, 95, 171, 8217}
Number  == {49, 50, 178, 189, 1635, 2406}
Latin   == {97, 98, 99, 104, 105, 110, 115, 223, 688, 42892}
Greek   == {945, 963, 962}
Cyril   == {1073}
Adlam   == {125218, 125219}
Georg   == {4304}
Hebrew  == {1488, 1523}
Arabic  == {1575, 1576}
Deva    == {2325, 2326}
Thai    == {3585}
Khmer   == {6016}
Hangul  == {4447}
NoScript == {700, 1600}          \* the modifier apostrophe and the tatweel are letters of any script
Letter  == Latin \cup Greek \cup Cyril \cup Adlam \cup Georg \cup Hebrew \cup Arabic \cup Deva \cup Thai \cup Khmer \cup Hangul \cup NoScript
Capital == {65, 66, 67, 72, 73, 78, 83, 42891, 913, 931, 1041, 125184, 125185, 7312}
Lower(c) == CASE c \in {65, 66, 67, 72, 73, 78, 83} -> c + 32 [] c = 42891 -> 42892 [] c \in {913, 931, 1041} -> c + 32
              [] c \in {125184, 125185} -> c + 34 [] c = 7312 -> 4304 [] OTHER -> c
Upper(c) == CASE c \in {97, 98, 99, 104, 105, 110, 115} -> <<c - 32>> [] c = 42892 -> <<42891>> [] c \in {945, 963, 1073} -> <<c - 32>>
              [] c = 962 -> <<931>> [] c = 223 -> <<83, 83>> [] c \in Adlam -> <<c - 34>> [] c = 4304 -> <<7312>> [] OTHER -> <<c>>
LowerCase == Latin \cup Greek \cup Cyril \cup Adlam \cup Georg
\* marks; those of a script, and the fatha, can also be seen alone
Nukta   == {2364, 125258}
Sign    == {2366, 2381, 2306, 1464, 1473, 3633, 3656, 6068, 6098, 125252, 1614}
Accent  == {768, 769, 770, 776, 803, 817, 847}
Mark    == Nukta \cup Sign \cup Accent \cup {8413, 12441}
ZWJ == 8205
ZWNJ == 8204
Ignorable == {4447, 6068, 847, ZWJ, ZWNJ, 173, 8203}
\* accents can be part of a letter, others not
NeverCombines(m) == m \notin Nukta \cup Accent
\* where a mark goes
Class(m) == CASE m \in {768, 769, 770, 776, 125252} -> 230 [] m \in {803, 817} -> 220 [] m = 1614 -> 30 [] m \in {2381, 6098} -> 9
              [] m \in Nukta -> 7 [] m = 12441 -> 8 [] m = 1464 -> 18 [] m = 1473 -> 24 [] m = 3656 -> 107 [] OTHER -> 0
Script(c) == CASE c \in Latin \cup {65, 66, 67, 72, 73, 78, 83, 42891} -> 1 [] c \in Greek \cup {913, 931} -> 2 [] c \in Cyril \cup {1041} -> 3
               [] c \in Adlam \cup {125184, 125185, 125258, 125252} -> 4 [] c \in Georg \cup {7312} -> 5 [] c \in Hebrew \cup {1464, 1473} -> 6
               [] c \in Arabic \cup {1635} -> 7 [] c \in Deva \cup {2406, 2364, 2366, 2381, 2306} -> 8 [] c \in Thai \cup {3633, 3656} -> 9
               [] c \in Khmer \cup {6068, 6098} -> 10 [] c \in Hangul -> 11 [] OTHER -> 0
Base(c) == Lower(c) \in Letter \cup Number \cup Nukta \cup Sign

(* Reading *)
Known(text, i, known) ==
  LET ls == {Len(k) : k \in {x \in known : Len(x) > 0 /\ i + Len(x) - 1 <= Len(text) /\ SubSeq(text, i, i + Len(x) - 1) = x}}
  IN IF ls = {} THEN 0 ELSE CHOOSE l \in ls : \A x \in ls : l >= x
RECURSIVE NuktasFrom(_, _)
NuktasFrom(text, i) == IF i > Len(text) \/ (i <= Len(text) /\ text[i] \notin Nukta) THEN i ELSE NuktasFrom(text, i + 1)
RECURSIVE TrailersFrom(_, _)
TrailersFrom(text, i) ==
  IF i > Len(text) THEN i
  ELSE IF text[i] = ZWNJ THEN i + 1
  ELSE IF text[i] \in Mark \cup {ZWJ} THEN TrailersFrom(text, i + 1)
  ELSE i
\* what is read at i, and what is left to read from; no base: skipped
At(text, i, known) ==
  LET l == Known(text, i, known)
      n == NuktasFrom(text, i + 1)
      e == TrailersFrom(text, n)
  IN CASE l > 0 -> [c |-> [base |-> SubSeq(text, i, i + l - 1), trail |-> <<>>], to |-> i + l, by |-> "known", case |-> ""]
       [] text[i] \in Punct -> [c |-> [base |-> <<text[i]>>, trail |-> <<>>], to |-> i + 1, by |-> "punct", case |-> ""]
       [] ~Base(text[i]) -> [c |-> [base |-> <<>>, trail |-> <<>>], to |-> i + 1, by |-> "skip", case |-> ""]
       [] OTHER -> [c |-> [base |-> <<Lower(text[i])>> \o SubSeq(text, i + 1, n - 1), trail |-> SubSeq(text, n, e - 1)], to |-> e, by |-> "letter",
                    case |-> IF text[i] \in Capital THEN "upper" ELSE IF text[i] \in LowerCase THEN "lower" ELSE ""]
RECURSIVE ReadFrom(_, _, _)
ReadFrom(text, i, known) == IF i > Len(text) THEN <<>> ELSE LET x == At(text, i, known) IN (IF x.by = "skip" THEN <<>> ELSE <<x>>) \o ReadFrom(text, x.to, known)
Read(text, known) == ReadFrom(text, 1, known)
Times(reading, c) == Cardinality({i \in 1..Len(reading) : reading[i].c = c})
\* only letters with nuktas right after them are meant
Meant(text) == \A i \in 2..Len(text) : text[i] \in Nukta => text[i - 1] \in Letter \cup Capital \cup Nukta \cup Number

(* Sorting out a set of clusters *)
IsPunct(c) == Len(c.base) > 0 /\ c.base[1] \in Punct
IsDigit(c) == Len(c.base) > 0 /\ c.base[1] \in Number /\ c.trail = <<>>
Rest(S) == {c \in S : ~IsPunct(c) /\ ~IsDigit(c)}
Text(c) == c.base \o c.trail
Trailers(S) == UNION {ToSet(c.trail) : c \in S}
Bases(S, m) == {c.base : c \in {x \in S : m \in ToSet(x.trail)}}
\* a mark is separate from its bases if it never combines, is on more than a few bases, or on just those that another mark is on
Separate(S, many, m) ==
  \/ NeverCombines(m) \/ m \in Ignorable
  \/ Cardinality(Bases(S, m)) > many
  \/ \E o \in Trailers(S) \cap Mark : o # m /\ Bases(S, o) = Bases(S, m)
\* or if it stacks on another
Stacks(S, m) == \E c \in S : \E i, j \in 1..Len(c.trail) : i < j /\ c.trail[j] = m /\ c.trail[i] \in Mark /\ Class(c.trail[i]) = Class(m)
StacksDirectly(S, m) == \E c \in S : \E i \in 2..Len(c.trail) : c.trail[i] = m /\ c.trail[i - 1] \in Mark /\ Class(c.trail[i - 1]) = Class(m)
\* a base with what is left on it
From(c, t) == /\ Len(t) >= Len(c.base) /\ SubSeq(t, 1, Len(c.base)) = c.base
              /\ Len(t) <= Len(c.base) + Len(c.trail)
              /\ \A i \in Len(c.base) + 1..Len(t) : t[i] \in ToSet(c.trail)
Lone(S) == {<<m>> : m \in Trailers(S)}

(* What is right to result, R, from the clusters S *)
Seen(S, R) == \A t \in R : t \in Lone(S) \/ \E c \in S : From(c, t)
Complete(S, many, R) ==
  /\ \A c \in S : \E t \in R : From(c, t)
  /\ \A c \in S : c.base[1] \in Ignorable \/ \A i \in 1..Len(c.trail) : <<c.trail[i]>> \in R \/ \E t \in R : From(c, t) /\ Len(t) > Len(c.base)
Parted(S, many, R) ==
  \A m \in Trailers(S) : Separate(S, many, m) =>
    /\ (\E c \in S : m \in ToSet(c.trail) /\ c.base[1] \notin Ignorable) => <<m>> \in R
    /\ \A t \in R : \A i \in 2..Len(t) : t[i] = m => \E c \in S : Len(c.base) >= i /\ Len(t) >= Len(c.base) /\ SubSeq(t, 1, Len(c.base)) = c.base
Together(S, many, R) ==
  \A c \in S : (c.base[1] \notin Ignorable /\ \A m \in ToSet(c.trail) : ~Separate(S, many, m) /\ ~Stacks(S, m)) => Text(c) \in R
=============================================================================
