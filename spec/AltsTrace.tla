----------------------------- MODULE AltsTrace -----------------------------
(* Checks histories of operations recorded from the code against Alts.     *)
EXTENDS Alts, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.VF_TRACES).traces

VARIABLES tid, l, st, verdict
vars == <<tid, l, st, verdict>>

T == Traces[tid]
Items == {"i1", "i2", "i3"}

\* What the trace shows of an item: [p |-> <<values>>, a |-> <<values with names>>]
ObsItem(o) == IF Len(o.p) = 0 /\ Len(o.a) = 0 THEN NoItem
              ELSE Item(Val(o.p[1].t, o.p[1].d),
                        [n \in {o.a[i].a : i \in 1..Len(o.a)} |->
                           LET i == CHOOSE i \in 1..Len(o.a) : o.a[i].a = n
                           IN Val(o.a[i].t, o.a[i].d)])
OneEach(o) == /\ Len(o.p) + Len(o.a) > 0 => Len(o.p) = 1
              /\ \A i, j \in 1..Len(o.a) : i # j => o.a[i].a # o.a[j].a

OfItem(i) == SelectSeq(T.doc, LAMBDA x : x.i = i)
Start == [i \in Items |-> Load(OfItem(i), NoItem, T.defdraft)]

\* the possible states after operation op in state s
Result(s, op) ==
  IF op.op = "save" \/ op.op = "reload"
  THEN {[i \in Items |-> Saved(s[i], T.defdraft)]}
  ELSE LET an == AltName(op.alt, T.uid)
           cn == IF op.alt = "" THEN "" ELSE an
           d == IF op.d # -1 THEN op.d ELSE T.usedraft
           posts == CASE op.op = "add" -> Add(s[op.i], Val(op.t, d), an, T.defdraft)
                      [] op.op = "change" -> Change(s[op.i], op.d, cn, T.usedraft, T.defdraft)
                      [] op.op = "ensure" -> Ensure(s[op.i], op.t, op.d, an, cn, T.usedraft, T.defdraft)
       IN {[s EXCEPT ![op.i] = x] : x \in posts}

Matches(s, o) == \A i \in Items : OneEach(o[i]) /\ Show(s[i], T.defdraft) = ObsItem(o[i])

\* why the observation o is not that of any of the states S
Why(S, o, op) ==
  IF \E i \in Items : ~OneEach(o[i]) THEN "more than one value in the same place"
  ELSE IF \A s \in S : \E i \in Items \ {op.i} : Show(s[i], T.defdraft) # ObsItem(o[i])
       THEN "an item not operated on changed"
  ELSE LET ob == ObsItem(o[op.i])
       IN IF \A s \in S : ~ob.has \/ Shown(s[op.i].prim, T.defdraft) # ob.prim THEN "wrong primary value"
          ELSE "wrong alternates"

RetOK(op, r) == op.op = "ensure" => /\ Len(r) >= 1

TraceInit == /\ tid \in 1..Len(Traces)
             /\ l = 0
             /\ st = [i \in Items |-> NoItem]
             /\ verdict = ""

Say(v, n, c) == PrintT(<<"VERDICT", tid, v, n, c>>) /\ verdict' = v /\ UNCHANGED <<tid, st>> /\ l' = n

First == /\ l = 0 /\ verdict = ""
         /\ IF T.failed # "" THEN Say("BAD", 0, "the code failed: " \o T.failed)
            ELSE IF Matches(Start, T.obs[1]) THEN l' = 1 /\ st' = Start /\ UNCHANGED <<tid, verdict>>
            ELSE Say("BAD", 0, "document misread")

Step == /\ l > 0 /\ l <= Len(T.ops) /\ verdict = ""
        /\ LET op == T.ops[l]
               S == Result(st, op)
               good == {s \in S : Matches(s, T.obs[l + 1])}
           IN IF ~RetOK(op, T.rets[l]) THEN Say("BAD", l, "wrong elements returned")
              ELSE IF good = {} THEN Say("BAD", l, IF op.op \in {"save", "reload"} THEN "changed by writing and reading" ELSE Why(S, T.obs[l + 1], op))
              ELSE \E s \in good : st' = s /\ l' = l + 1 /\ UNCHANGED <<tid, verdict>>

Done == /\ l = Len(T.ops) + 1 /\ verdict = "" /\ Say("OK", l, "")

TraceNext == First \/ Step \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
