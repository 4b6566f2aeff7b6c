------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* Processing a set of locales in parallel. Each job reads what it needs    *)
(* (input isn't written to), opens its own output, writes it in pieces and  *)
(* reports. A job may fail when reading, or having opened its output.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Locales, Workers, Pieces    \* pieces each output is written in
VARIABLES
  fails,      \* Locales -> "no", "read" or "write"
  queue,      \* locales still to be taken, in order
  work,       \* Workers -> what they are doing
  disk,       \* Locales -> what of their output there is: -1 no file, otherwise the pieces in it
  reports     \* Locales -> "" until reported, then "ok" or "failed"
vars == <<fails, queue, work, disk, reports>>

Idle == [loc |-> "", left |-> 0]

Init == /\ fails \in [Locales -> {"no", "read", "write"}]
        /\ queue \in {s \in [1..Cardinality(Locales) -> Locales] : \A i, j \in DOMAIN s : s[i] = s[j] => i = j}
        /\ work = [w \in Workers |-> Idle]
        /\ disk \in [Locales -> {-1, Pieces}]       \* perhaps there from an earlier run
        /\ reports = [l \in Locales |-> ""]

Report(w, how) == /\ reports' = [reports EXCEPT ![work[w].loc] = how]
                  /\ work' = [work EXCEPT ![w] = Idle]

Take(w) == /\ work[w] = Idle /\ queue # <<>>
           /\ work' = [work EXCEPT ![w] = [loc |-> Head(queue), left |-> Pieces + 1]]
           /\ queue' = Tail(queue)
           /\ UNCHANGED <<fails, disk, reports>>
Fail(w) == /\ work[w] # Idle
           /\ \/ fails[work[w].loc] = "read" /\ work[w].left = Pieces + 1
              \/ fails[work[w].loc] = "write" /\ work[w].left <= Pieces
           /\ Report(w, "failed")
           /\ UNCHANGED <<fails, queue, disk>>
Open(w) == /\ work[w] # Idle /\ work[w].left = Pieces + 1 /\ fails[work[w].loc] # "read"
           /\ disk' = [disk EXCEPT ![work[w].loc] = 0]
           /\ work' = [work EXCEPT ![w].left = Pieces]
           /\ UNCHANGED <<fails, queue, reports>>
Write(w) == /\ work[w] # Idle /\ work[w].left \in 1..Pieces
            /\ fails[work[w].loc] # "write" \/ work[w].left > 1
            /\ disk' = [disk EXCEPT ![work[w].loc] = @ + 1]
            /\ work' = [work EXCEPT ![w].left = @ - 1]
            /\ UNCHANGED <<fails, queue, reports>>
Finish(w) == /\ work[w] # Idle /\ work[w].left = 0
             /\ Report(w, "ok")
             /\ UNCHANGED <<fails, queue, disk>>
Next == \E w \in Workers : Take(w) \/ Fail(w) \/ Open(w) \/ Write(w) \/ Finish(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == queue = <<>> /\ \A w \in Workers : work[w] = Idle

\* What a finished run must be like, whatever the schedule: f says who fails, d what is on disk, r the reports
Outcome(f, d, r, all) == \A l \in DOMAIN f : IF f[l] = "no" THEN d[l] = all /\ r[l] = "ok" ELSE r[l] = "failed"
Good == Done => Outcome(fails, disk, reports, Pieces)
\* nobody writes another's output
Own == [][\A l \in Locales : disk'[l] # disk[l] => \E w \in Workers : work[w].loc = l]_vars
\* it comes to an end
Ends == <>Done
=============================================================================
