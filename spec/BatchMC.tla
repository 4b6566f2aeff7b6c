------------------------------ MODULE BatchMC ------------------------------
(* All schedules of small batches; emits the batches, once for each way     *)
(* things may fail, order and number of workers.                            *)
EXTENDS Batch, TLC, Json
CONSTANT Emit
Seen == (Emit /\ \A l \in Locales : reports[l] = "" /\ disk[l] = -1 /\ Len(queue) = Cardinality(Locales))
        => PrintT(<<"CASE", ToJson([fails |-> fails, order |-> queue, n |-> Cardinality(Workers)])>>)
=============================================================================
