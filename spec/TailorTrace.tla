----------------------------- MODULE TailorTrace -----------------------------
(* Judges how the code sorts by a tailoring. A trace has the letters with    *)
(* their default weights, the rules, some strings, and how each pair of them *)
(* sorted by the rules, and by the rules as written out and read again twice.*)
EXTENDS Tailor, Json, IOUtils, TLC
VARIABLES tid, verdict
vars == <<tid, verdict>>
Traces == JsonDeserialize(IOEnv.VF_TRACES).traces
T == Traces[tid]

Default(ls) ==
  LET sorted == SortSeq(ls, LAMBDA a, b : First(a.w, b.w) = 1)
  IN [i \in 1..Len(sorted) |-> [s |-> sorted[i].s, t |-> 0,
        d |-> IF i = 1 THEN 1 ELSE LET d == {l \in 1..3 : sorted[i].w[l] # sorted[i - 1].w[l]} IN IF d = {} THEN 4 ELSE MinOf(d)]]

(* the elements of a string, longest first. <<>> if some of it isn't known *)
RECURSIVE Split(_, _)
Split(s, known) ==
  IF s = <<>> THEN <<>>
  ELSE LET ls == {n \in 1..Len(s) : SubSeq(s, 1, n) \in known}
       IN IF ls = {} THEN << <<0>> >>
          ELSE LET n == MaxOf(ls) IN <<SubSeq(s, 1, n)>> \o Split(SubSeq(s, n + 1, Len(s)), known)
Unknown(parts) == parts # <<>> /\ \E i \in 1..Len(parts) : parts[i] = <<0>>

RECURSIVE Flat(_, _)
Flat(parts, exps) == IF parts = <<>> THEN <<>>
  ELSE <<Head(parts)>> \o (IF Head(parts) \in DOMAIN exps THEN exps[Head(parts)].e ELSE <<>>) \o Flat(Tail(parts), exps)

Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* st: order, for what was tailored what its expansion is made of, whether   *)
(* nothing was contested, and nothing tailored is in the expansions (which   *)
(* then depend on what comes first in the rules, and that isn't kept).       *)
(* cur is what the next item goes after, ext what the reset had beyond that  *)
RECURSIVE Items(_, _, _, _, _, _)
Items(st, cur, before, ext, items, known) ==
  IF items = <<>> THEN st
  ELSE LET it == Head(items)
           parts == Split(IF it.e # <<>> THEN it.e ELSE ext, known.all)
           placed == \A i \in 1..Len(parts) : parts[i] \in known.tailored => parts[i] \in DOMAIN st.exps /\ st.exps[parts[i]].sure
           sure == placed /\ ~Unknown(parts)
       IN Items([o |-> Place(st.o, cur, before > 0, it.l, it.s),
                 exps |-> Set(st.exps, it.s, [sure |-> sure, e |-> IF sure THEN Flat(parts, st.exps) ELSE <<>>]),
                 clean |-> st.clean /\ ~Contested(st.o, cur, before > 0, it.l, it.s),
                 alone |-> st.alone /\ \A i \in 1..Len(parts) : parts[i] \notin known.tailored],
                it.s, 0, ext, Tail(items), known)
RECURSIVE Rules(_, _, _)
Rules(st, rs, known) ==
  IF rs = <<>> THEN st
  ELSE LET r == Head(rs)
           parts == Split(r.base, known.all)
           base == IF Unknown(parts) THEN <<>> ELSE parts[1]
           ext == SubSeq(r.base, Len(base) + 1, Len(r.base))
       IN IF base = <<>> \/ (base \in known.tailored /\ base \notin DOMAIN st.exps) \/ (base \in DOMAIN st.exps /\ (~st.exps[base].sure \/ st.exps[base].e # <<>>))
             \/ \E i \in 1..Len(r.items) : r.items[i].s = base
          THEN [st EXCEPT !.clean = FALSE]
          ELSE Rules(Items(st, base, r.before, ext, r.items, known), Tail(rs), known)

(* the operators on sort keys say what the difference says, and sorting by  *)
(* them puts nothing before what it sorts after                              *)
Operators(d) == IF d = 4 THEN {"<=", "=", ">="} ELSE IF d > 0 THEN {"<", "<=", "#"} ELSE {">", ">=", "#"}
Says(i, j) == {T.ops[i][j][k] : k \in 1..Len(T.ops[i][j])}
Compared == /\ \A i, j \in 1..Len(T.strings) : Says(i, j) = Operators(T.order[1][i][j])
            /\ \A k \in 1..Len(T.sorted) - 1 : LET d == T.order[1][T.sorted[k] + 1][T.sorted[k + 1] + 1] IN d > 0

Judge ==
  IF T.failed # "" THEN "the code failed: " \o T.failed
  ELSE
  LET tailored == UNION {{T.rules[i].items[j].s : j \in 1..Len(T.rules[i].items)} : i \in 1..Len(T.rules)}
      known == [tailored |-> tailored, all |-> tailored \cup {T.letters[i].s : i \in 1..Len(T.letters)}]
      st == Rules([o |-> Default(T.letters), exps |-> [x \in {} |-> <<>>], clean |-> TRUE, alone |-> TRUE], T.rules, known)
      n == Len(T.strings)
      parts == [i \in 1..n |-> Split(T.strings[i], known.all)]
      sure == {i \in 1..n : ~Unknown(parts[i]) /\ \A j \in 1..Len(parts[i]) : parts[i][j] \in DOMAIN st.exps => st.exps[parts[i][j]].sure}
      weight == [i \in 1..Len(st.o) |-> Weight(st.o, i)]
      w == [i \in sure |-> LET f == Flat(parts[i], st.exps) IN [j \in 1..Len(f) |-> weight[At(st.o, f[j])]]]
      want(i, j) == LET c == Compare(w[i], w[j]) IN IF c[2] = 2 THEN 0 - c[1] ELSE c[1]
      keys(r) == {r[i][1] : i \in 1..Len(r)}
  IN CASE \E x \in 1..3 : keys(T.got[x]) # tailored \/ Len(T.got[x]) # Cardinality(tailored) -> "other strings are tailored"
       [] ~Compared -> "sort keys compare otherwise than they differ"
       [] ~st.clean -> "-"
       [] \E i \in sure : \E j \in sure : T.order[1][i][j] # want(i, j) -> "doesn't sort as declared"
       [] ~st.alone -> ""
       [] \E x \in 2..3 : \E i \in 1..Len(T.got[1]) : T.got[x][i][5] # T.got[1][i][5] -> "expansions aren't written"
       [] \E x \in 2..3 : T.order[x] # T.order[1] -> "what is written sorts otherwise"
       [] OTHER -> ""

TraceInit == tid \in 1..Len(Traces) /\ verdict = ""
TraceNext == /\ verdict = ""
             /\ LET v == Judge
                IN /\ PrintT(<<"VERDICT", tid, IF v \in {"", "-"} THEN "OK" ELSE "BAD", 0, v>>)
                   /\ verdict' = IF v \in {"", "-"} THEN "OK" ELSE "BAD"
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
