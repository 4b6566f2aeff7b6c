-------------------------------- MODULE Enrich --------------------------------
(***************************************************************************)
(* Tools that add to documents what they know of their locales: keyboards,   *)
(* fonts and names. Each addition makes sure that there is an element along  *)
(* a path, and gives it a text or attributes; nothing else changes.          *)
(***************************************************************************)
EXTENDS LdmlTree
CONSTANT E      \* names: special, xres, kbd, url, font, id, type, kmp, name, types, features, default, ui, draft, generated,
                \* localeDisplayNames, names, silname, lang, en, languages, language, identity, silidentity, source, cldr, characters, exemplars

Step(g, tests) == [g |-> g, tests |-> tests]
Passes(n, st) == n.g = st.g /\ \A i \in 1..Len(st.tests) : At(n, st.tests[i][1]) = st.tests[i][2]
Kids(n, st) == {i \in 1..Len(n.k) : Passes(n.k[i], st)}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* how much of the path there is
RECURSIVE Depth(_, _)
Depth(n, path) == IF path = <<>> THEN 0
                  ELSE LET I == Kids(n, Head(path)) IN IF I = {} THEN 0 ELSE 1 + MaxOf({Depth(n.k[i], Tail(path)) : i \in I})
SetA(n, ps) == [n EXCEPT !.a = SelectSeq(n.a, LAMBDA q : \A i \in 1..Len(ps) : ps[i][1] # q[1]) \o ps]
\* upd: text (0 for none), whether in place of another one, and attributes
Updated(n, upd) == LET m == IF upd.t # 0 /\ (n.t = 0 \/ upd.replace) THEN [n EXCEPT !.t = upd.t] ELSE n IN SetA(m, upd.a)
Fresh(st, draft) == [g |-> st.g, a |-> st.tests \o (IF draft = 0 THEN <<>> ELSE <<<<E.draft, draft>>>>), t |-> 0, k |-> <<>>, c |-> <<>>, e |-> <<>>, z |-> <<>>]
RECURSIVE Ensured(_, _, _, _)
Ensured(n, path, draft, upd) ==
  IF path = <<>> THEN Updated(n, upd)
  ELSE LET I == Kids(n, Head(path))
       IN IF I = {} THEN [n EXCEPT !.k = Append(@, Ensured(Fresh(Head(path), draft), Tail(path), draft, upd))]
          ELSE LET deep(i) == Depth(n.k[i], Tail(path))
                   i == SetMin({j \in I : \A h \in I : deep(h) <= deep(j)})
               IN [n EXCEPT !.k = [@ EXCEPT ![i] = Ensured(@, Tail(path), draft, upd)]]

(* keyboards: sequence of [id, url] *)
AddKeyboard(doc, kb) ==
  Ensured(doc, <<Step(E.special, <<>>), Step(E.xres, <<>>), Step(E.kbd, <<<<E.id, kb.id>>, <<E.type, E.kmp>>>>), Step(E.url, <<>>)>>, E.generated,
          [t |-> kb.url, replace |-> TRUE, a |-> <<>>])
RECURSIVE WithKeyboards(_, _)
WithKeyboards(doc, kbs) == IF kbs = <<>> THEN doc ELSE WithKeyboards(AddKeyboard(doc, Head(kbs)), Tail(kbs))

(* fonts: sequence of [name, url (0: none), features (0: none), sans: for user interfaces]; the first one is the default *)
AddFont(doc, f, first) ==
  LET path == <<Step(E.special, <<>>), Step(E.xres, <<>>), Step(E.font, <<<<E.name, f.name>>>>)>>
      types == IF f.sans THEN <<<<E.types, E.ui>>>> ELSE IF first THEN <<<<E.types, E.default>>>> ELSE <<>>
      d == Ensured(doc, path, 0, [t |-> 0, replace |-> FALSE, a |-> types \o (IF f.features = 0 THEN <<>> ELSE <<<<E.features, f.features>>>>)])
  IN IF f.url = 0 THEN d ELSE Ensured(d, path \o <<Step(E.url, <<>>)>>, 0, [t |-> f.url, replace |-> TRUE, a |-> <<>>])
RECURSIVE WithFonts(_, _, _)
WithFonts(doc, fs, first) == IF fs = <<>> THEN doc ELSE WithFonts(AddFont(doc, Head(fs), first), Tail(fs), FALSE)

(* names, kept if there are some already: tag of the locale, English name, own name (0: not known)  *)
Stub(doc) == Len(doc.k) = 1 /\ doc.k[1].g = E.identity
IdentityOf(doc) == IdentDraft(doc.k, <<E.identity, E.special, E.silidentity>>)
Ours(doc) == IdentityOf(doc) # <<>> /\ At(IdentityOf(doc)[1], E.source) # E.cldr
WithNames(doc, tag, english, own) ==
  LET put(t) == [t |-> t, replace |-> FALSE, a |-> <<>>]
      d == IF english = 0 THEN doc
           ELSE Ensured(doc, <<Step(E.localeDisplayNames, <<>>), Step(E.special, <<>>), Step(E.names, <<>>), Step(E.silname, <<<<E.lang, E.en>>>>)>>, 0, put(english))
  IN IF own = 0 THEN d
     ELSE Ensured(d, <<Step(E.localeDisplayNames, <<>>), Step(E.languages, <<>>), Step(E.language, <<<<E.type, tag>>>>)>>, 0, put(own))

\* the text of the first of the exemplars that have one and aren't of some type
RECURSIVE AllAlong(_, _)
AllAlong(n, path) == IF path = <<>> THEN <<n>> ELSE Flat([i \in 1..Len(n.k) |-> IF n.k[i].g = Head(path) THEN AllAlong(n.k[i], Tail(path)) ELSE <<>>])
MainText(doc) == LET s == SelectSeq(AllAlong(doc, <<E.characters, E.exemplars>>), LAMBDA n : At(n, E.type) = 0 /\ n.t # 0)
                 IN IF s = <<>> THEN 0 ELSE s[1].t

(* Which fonts a locale of some script and region has by a table of rows [script, regions (0: any), fonts], *)
(* later rows in place of earlier ones                                                                      *)
Last(rows, P(_)) == LET I == {i \in 1..Len(rows) : P(rows[i])} IN IF I = {} THEN <<>> ELSE <<rows[MaxOf(I)]>>
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
OfTable(rows, script, region) ==
  LET here == Last(rows, LAMBDA r : r.script = script /\ r.fonts # <<>> /\ region # 0 /\ Has(r.regions, region))
      any == Last(rows, LAMBDA r : r.script = script /\ r.fonts # <<>> /\ Has(r.regions, 0))
      r == IF here # <<>> THEN here ELSE any
  IN IF r = <<>> THEN {} ELSE {r[1].fonts[i] : i \in 1..Len(r[1].fonts)}
(* and by rules of a style sheet [full, fonts, feats]  *)
FontsOfRules(rules, full) == LET r == Last(rules, LAMBDA x : x.full = full /\ x.fonts # <<>>) IN IF r = <<>> THEN {} ELSE {r[1].fonts[i] : i \in 1..Len(r[1].fonts)}
FeatsOfRules(rules, full) == LET r == Last(rules, LAMBDA x : x.full = full /\ x.feats # <<>>) IN IF r = <<>> THEN {} ELSE {r[1].feats[i] : i \in 1..Len(r[1].feats)}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET x == SetMin(S) IN <<x>> \o Ascending(S \ {x})
\* those of both come first, then those of the table
FontOrder(given, table, sheet) == given \o Ascending(table \cap sheet) \o Ascending(table \ sheet) \o Ascending(sheet \ table)
=============================================================================
