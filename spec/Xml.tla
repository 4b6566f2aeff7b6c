-------------------------------- MODULE Xml --------------------------------
(***************************************************************************)
(* XML namespaces: what a document as written, with prefixes, says.         *)
(* An element as written is a record                                        *)
(*   p, l  prefix and local name       d  sequence of declarations <<prefix, uri>> *)
(*   a     sequence of attributes <<prefix, local name, value>>             *)
(*   t     text     cd  whether it was all in CDATA     k  children         *)
(* and in memory <<uri, local name>> are in place of prefixes:              *)
(*   u, l,  a  sequence of <<uri, local name, value>>,  t,  k               *)
(* Prefix 0 is the empty one, uri 0 no namespace.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* the uri that prefix p stands for in env, a sequence of <<prefix, uri>>, the latest first
RECURSIVE UriOf(_, _)
UriOf(env, p) == IF env = <<>> THEN IF p = 0 THEN 0 ELSE -1
                 ELSE IF Head(env)[1] = p THEN Head(env)[2] ELSE UriOf(Tail(env), p)

RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Append(Rev(Tail(s)), Head(s))
Enter(env, n) == Rev(n.d) \o env

RECURSIVE Resolve(_, _)
Resolve(n, env0) ==
  LET env == Enter(env0, n)
  IN [u |-> UriOf(env, n.p), l |-> n.l, t |-> n.t,
      a |-> {<<IF n.a[i][1] = 0 THEN 0 ELSE UriOf(env, n.a[i][1]), n.a[i][2], n.a[i][3]>> : i \in 1..Len(n.a)},
      k |-> [i \in 1..Len(n.k) |-> Resolve(n.k[i], env)]]

RECURSIVE Plain(_)
Plain(n) == [u |-> n.u, l |-> n.l, t |-> n.t, a |-> {n.a[i] : i \in 1..Len(n.a)},
             k |-> [i \in 1..Len(n.k) |-> Plain(n.k[i])]]

\* the prefixes an element itself uses
Uses(n) == {n.p} \cup ({n.a[i][1] : i \in 1..Len(n.a)} \ {0})

\* Declarations are where they should be. At the top: all on the root. Low: each where the
\* element or one of its children uses it, and not when it is already declared
RECURSIVE WellPlaced(_, _, _, _)
WellPlaced(n, env, top, isroot) ==
  /\ top /\ ~isroot => n.d = <<>>
  /\ ~top => \A i \in 1..Len(n.d) :
        LET p == n.d[i][1]
        IN /\ p \in Uses(n) \/ \E j \in 1..Len(n.k) : p \in Uses(n.k[j])
           /\ UriOf(env, p) # n.d[i][2]
  /\ \A i \in 1..Len(n.k) : WellPlaced(n.k[i], Enter(env, n), top, FALSE)

---------------------------------------------------------------------------
(* Writing. ns is a sequence of <<uri, prefix>>: the prefix for each namespace. *)

PrefixOf(ns, u) == ns[CHOOSE i \in 1..Len(ns) : ns[i][1] = u][2]
Has(ns, u) == \E i \in 1..Len(ns) : ns[i][1] = u
Prefixes(ns) == {ns[i][2] : i \in 1..Len(ns)}
\* Reading a declaration of prefix p for namespace u. Gen are prefixes to make up when it can't be used
Note(ns, p, u, Gen) ==
  LET set(q) == IF Has(ns, u) THEN [i \in 1..Len(ns) |-> IF ns[i][1] = u THEN <<u, q>> ELSE ns[i]]
                ELSE Append(ns, <<u, q>>)
  IN IF u = 0 THEN ns
     ELSE IF p # 0 /\ p \notin Prefixes(ns) THEN set(p)
     ELSE IF ~Has(ns, u) THEN set(CHOOSE q \in Gen \ Prefixes(ns) : \A x \in Gen \ Prefixes(ns) : q <= x)
     ELSE ns

Pre(ns, u) == IF u = 0 THEN 0 ELSE PrefixOf(ns, u)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
RECURSIVE Write(_, _, _, _)
Write(n, ns, top, scope) ==       \* scope: the uris declared so far
  LET own == ({n.u} \cup {n.a[i][1] : i \in 1..Len(n.a)} \cup {n.k[i].u : i \in 1..Len(n.k)}) \ {0}
      new == IF top THEN IF scope = {} THEN {ns[i][1] : i \in 1..Len(ns)} ELSE {}
             ELSE own \ scope
  IN [p |-> Pre(ns, n.u), l |-> n.l, t |-> n.t,
      d |-> LET s == SetSeq(new) IN [i \in 1..Len(s) |-> <<Pre(ns, s[i]), s[i]>>],
      a |-> [i \in 1..Len(n.a) |-> <<Pre(ns, n.a[i][1]), n.a[i][2], n.a[i][3]>>],
      k |-> [i \in 1..Len(n.k) |-> Write(n.k[i], ns, top, scope \cup new \cup {-1})]]
=============================================================================
