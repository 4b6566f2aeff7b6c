----------------------------- MODULE ImportsMC -----------------------------
(* A locale "zz" with collations a and b, and root and "yy" with one each,   *)
(* importing each other                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Emit
VARIABLES start, rules, own

LocaleOf_(l) == IF l = "und" THEN "root" ELSE l
TypeOf_(t) == IF t = "phonebk" THEN "phonebook" ELSE t
M == INSTANCE Imports WITH LocaleOf <- LocaleOf_, TypeOf <- TypeOf_
Txt(s) == [text |-> s, lang |-> "", coll |-> ""]
Imp(l, t) == [text |-> "", lang |-> l, coll |-> t]
Of(pieces) == UNION {[1..n -> pieces] : n \in 0..MaxLen}
Imps == {Imp("und", "standard"), Imp("yy", "phonebk"), Imp("zz", "search"), Imp("zz", "nosuch")}
Docs == [std : Of({Txt("a")} \cup Imps), sea : Of({Txt("b")} \cup Imps),
         root : {<<Txt("c")>>, <<Imp("yy", "phonebk")>>, <<Imp("zz", "search"), Txt("c")>>}, yy : {<<Txt("d")>>, <<Txt("d"), Imp("und", "standard")>>, <<>>}]
Init == \E d \in Docs :
          /\ start = d
          /\ rules = [l \in {"root", "yy"} |-> IF l = "root" THEN [t \in {"standard"} |-> d.root] ELSE [t \in {"phonebook"} |-> d.yy]]
          /\ own = [t \in {"standard", "search"} |-> IF t = "standard" THEN d.std ELSE d.sea]
          /\ Emit => PrintT(<<"CASE", ToJson(d)>>)
Next == /\ UNCHANGED start
        /\ \/ UNCHANGED rules /\ \E t \in DOMAIN own : \E ps \in M!Outcomes(own[t], rules, own, "zz") : own' = [own EXCEPT ![t] = ps]
           \/ UNCHANGED own /\ \E l \in DOMAIN rules : \E t \in DOMAIN rules[l] :
                \E ps \in M!Outcomes(rules[l][t], rules, own, "zz") : rules' = [rules EXCEPT ![l][t] = ps]
Spec == Init /\ [][Next]_<<start, rules, own>>

Rules0 == [l \in {"root", "yy"} |-> IF l = "root" THEN [t \in {"standard"} |-> start.root] ELSE [t \in {"phonebook"} |-> start.yy]]
Own0 == [t \in {"standard", "search"} |-> IF t = "standard" THEN start.std ELSE start.sea]
\* In whatever order the imports are replaced the rules come out as said, unless there is a cycle, and then some are left
Good == ~ENABLED Next =>
  \A t \in DOMAIN own : LET want == M!Expand(Own0[t], Rules0, Own0, "zz", {})
                        IN IF want.cyclic THEN ~M!Plain(own[t]) ELSE M!Text(own[t]) = want.text
=============================================================================
