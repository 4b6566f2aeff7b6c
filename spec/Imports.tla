------------------------------ MODULE Imports ------------------------------
(***************************************************************************)
(* Import statements in collations. A collation's rules are a sequence of   *)
(* pieces, strings or imports [lang, coll]. Rules holds those of all        *)
(* locales as documents: locale -> type -> pieces. The locale in question   *)
(* is also known by Own, with collations of its own or inherited.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS LocaleOf(_),   \* the locale a language tag stands for
          TypeOf(_)      \* the collation type a collation subtag stands for

Sources(lang, coll, rules, own, self) ==
  LET l == LocaleOf(lang) t == TypeOf(coll)
  IN IF l = self THEN IF t \in DOMAIN own THEN <<own[t]>> ELSE <<>>
     ELSE IF l \in DOMAIN rules /\ t \in DOMAIN rules[l] THEN <<rules[l][t]>> ELSE <<>>

IsImport(p) == p.lang # ""

\* An import that names no collation is of the standard one.
\* Text of a collation, and whether it has an import of what is being imported
RECURSIVE Expand(_, _, _, _, _)
Expand(ps, rules, own, self, active) ==
  IF ps = <<>> THEN [text |-> "", cyclic |-> FALSE]
  ELSE LET p == Head(ps)
           rest == Expand(Tail(ps), rules, own, self, active)
           this == IF ~IsImport(p) THEN [text |-> p.text, cyclic |-> FALSE]
                   ELSE LET key == <<LocaleOf(p.lang), TypeOf(p.coll)>>
                            s == Sources(p.lang, p.coll, rules, own, self)
                        IN IF s = <<>> THEN [text |-> "", cyclic |-> FALSE]
                           ELSE IF key \in active THEN [text |-> "", cyclic |-> TRUE]
                           ELSE Expand(s[1], rules, own, self, active \cup {key})
       IN [text |-> this.text \o rest.text, cyclic |-> this.cyclic \/ rest.cyclic]

---------------------------------------------------------------------------
\* One import at a time: any that is of something without imports left, or of nothing

Put(ps, i, new) == SubSeq(ps, 1, i - 1) \o new \o SubSeq(ps, i + 1, Len(ps))
Plain(ps) == \A i \in 1..Len(ps) : ~IsImport(ps[i])
Outcomes(ps, rules, own, self) ==
  UNION {LET s == Sources(ps[i].lang, ps[i].coll, rules, own, self)
         IN IF s = <<>> THEN {Put(ps, i, <<>>)} ELSE IF Plain(s[1]) THEN {Put(ps, i, s[1])} ELSE {}
         : i \in {i \in 1..Len(ps) : IsImport(ps[i])}}
RECURSIVE Text(_)
Text(ps) == IF ps = <<>> THEN "" ELSE (IF IsImport(Head(ps)) THEN "?" ELSE Head(ps).text) \o Text(Tail(ps))
=============================================================================
