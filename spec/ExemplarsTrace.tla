--------------------------- MODULE ExemplarsTrace ---------------------------
(* Judges what the code found in some texts                                  *)
EXTENDS Exemplars, Json, IOUtils, TLC
VARIABLES tid, verdict
vars == <<tid, verdict>>
Traces == JsonDeserialize(IOEnv.VF_TRACES).traces
T == Traces[tid]

RECURSIVE ReadAll(_, _)
ReadAll(texts, known) == IF texts = <<>> THEN <<>> ELSE Read(Head(texts), known) \o ReadAll(Tail(texts), known)
RECURSIVE UpperOf(_)
UpperOf(t) == IF t = <<>> THEN <<>> ELSE Upper(Head(t)) \o UpperOf(Tail(t))
Flat == FoldLeft(LAMBDA a, b : a \o b, <<>>, T.texts)
\* exemplars are of the script that most of the text is in
Most == LET n(s) == Cardinality({i \in 1..Len(Flat) : Script(Flat[i]) = s})
            ss == {Script(c) : c \in ToSet(Flat)} \ {0}
        IN IF ss = {} THEN {0} ELSE {s \in ss : \A o \in ss : n(s) >= n(o)}
Of(s, ts) == {t \in ts : Script(t[1]) \in {0, s}}

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

JudgeScript(s, cs, raw) ==
  LET R == T.main \o T.auxiliary
      has == ToSet(R)
      S == Rest(cs)
      rest == SetToSeq({r \in raw : ~IsDigit(r.c) /\ r.c.base[1] \notin Ignorable})
      open == \A c \in S : Script(Text(c)[1]) \in {0, s} /\ \A m \in ToSet(c.trail) : Script(m) \in {0, s}
      plain == open /\ \A c \in S : c.trail = <<>>
      total == Sum([i \in 1..Len(rest) |-> rest[i].n])
      often(n) == n * 100 * Len(rest) > total * T.frequent
      borderline(n) == n * 100 * Len(rest) = total * T.frequent /\ T.frequent # 100
  IN CASE ToSet(T.punctuation) # Of(s, {c.base : c \in {x \in cs : IsPunct(x)}}) -> "punctuation"
       [] ToSet(T.digits) # Of(s, {c.base : c \in {x \in cs : IsDigit(x)}}) -> "digits"
       [] ~Seen(S, has) -> "an exemplar that was not seen"
       [] \E t \in has : Script(t[1]) \notin {0, s} -> "an exemplar of another script"
       [] open /\ ~Complete(S, T.many, has) -> "something that was seen is in no exemplar"
       [] open /\ ~Parted(S, T.many, has) -> "a mark is not separate from its bases"
       [] open /\ ~Together(S, T.many, has) -> "a letter is taken apart"
       [] T.known = <<>> /\ \E t \in ToSet(T.main) \cap ToSet(T.auxiliary) : t[1] \notin Mark -> "something is in main and auxiliary"
       [] \E t \in ToSet(T.main) : (t[1] \in Ignorable /\ t[1] \notin Mark) \/ t = <<1600>> -> "something ignorable is in main"
       [] plain /\ (\E i \in 1..Len(rest) : LET t == Text(rest[i].c)
                                                n == rest[i].n
                                            IN t[1] \notin Ignorable /\ t # <<1600>> /\ ~borderline(n) /\ t \notin ToSet(IF often(n) THEN T.main ELSE T.auxiliary))
            -> "main is what is frequent"
       [] ToSet(T.index) # Of(s, {UpperOf(t) : t \in {x \in ToSet(T.main) : x[1] \notin Mark}}) -> "the index is the capitals of main"
       [] T.frequency # <<>> /\ LET f == T.frequency
                                    want == {r \in raw : Script(Text(r.c)[1]) \in {0, s}}
                                IN \/ Len(f) # Cardinality(want)
                                   \/ \E i \in 2..Len(f) : f[i - 1].n < f[i].n
                                   \/ \E r \in want : Cardinality({i \in 1..Len(f) : f[i].t = Text(r.c) /\ f[i].n = r.n}) # Cardinality({q \in want : Text(q.c) = Text(r.c) /\ q.n = r.n})
            -> "frequencies"
       [] OTHER -> ""
Judge ==
  IF T.failed # "" THEN "the code failed: " \o T.failed
  ELSE IF \E i \in 1..Len(T.texts) : ~Meant(T.texts[i]) THEN "-"
  ELSE LET reading == ReadAll(T.texts, ToSet(T.known))
           cs == {reading[i].c : i \in 1..Len(reading)}
           raw == {[c |-> c, n |-> Times(reading, c)] : c \in {x \in cs : ~IsPunct(x)}}
           cased(w) == {Text(reading[i].c) : i \in {j \in 1..Len(reading) : reading[j].case = w}}
           verdicts == {JudgeScript(s, cs, raw) : s \in Most}
       IN CASE {[c |-> [base |-> x.base, trail |-> x.trail], n |-> x.n] : x \in ToSet(T.raw)} # raw \/ Len(T.raw) # Cardinality(raw) -> "clusters"
            [] ToSet(T.onlyUpper) # cased("upper") \ cased("lower") -> "what is only seen as capitals"
            [] ToSet(T.onlyLower) # cased("lower") \ cased("upper") -> "what is never seen as capitals"
            [] "" \in verdicts -> ""
            [] OTHER -> CHOOSE v \in verdicts : TRUE

TraceInit == tid \in 1..Len(Traces) /\ verdict = ""
TraceNext == /\ verdict = ""
             /\ LET v == Judge
                IN /\ PrintT(<<"VERDICT", tid, IF v \in {"", "-"} THEN "OK" ELSE "BAD", 0, v>>)
                   /\ verdict' = IF v \in {"", "-"} THEN "OK" ELSE "BAD"
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
