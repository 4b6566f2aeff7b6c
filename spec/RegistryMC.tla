----------------------------- MODULE RegistryMC -----------------------------
(* A reader of one line at a time, over every small file                     *)
EXTENDS Registry, Json
CONSTANTS MaxLen, Emit
VARIABLES ls, known, rec, last
\* what has been read of finished records, the fields of the current one in order of their names, and the name of the last field
vars == <<ls, known, rec, last>>

L(f, v) == [k |-> "field", f |-> f, v |-> v]
Sep == [k |-> "sep"]
Fold == [k |-> "fold", v |-> "w"]
None == [x \in {} |-> <<>>]

Finished(r) == IF "subtag" \in DOMAIN r THEN {[type |-> r["type"][1], subtag |-> r["subtag"][1], fields |-> {<<f, r[f]>> : f \in DOMAIN r \ {"type", "subtag"}}]} ELSE {}
Init == ls = <<>> /\ known = {} /\ rec = None /\ last = ""
Read(f, v) == /\ ls' = Append(ls, L(f, v))
              /\ rec' = [x \in DOMAIN rec \cup {f} |-> (IF x \in DOMAIN rec THEN rec[x] ELSE <<>>) \o (IF x = f THEN <<v>> ELSE <<>>)]
              /\ last' = f
              /\ UNCHANGED known
New == \E x \in known : x.type = rec["type"][1] /\ x.subtag = "p"
\* the type comes first, then what it is of
Type == rec = None /\ \E v \in {"a", "b"} : Read("type", v)
Of == last = "type" /\ (\/ \E v \in {"p", "q"} : (~\E x \in known : x.type = rec["type"][1] /\ x.subtag = v) /\ Read("subtag", v)
                        \/ Read("tag", "p")
                        \/ Read("file-date", "d"))
More == Len(ls) > 1 /\ last \notin {"", "type"} /\ \E x \in {<<"description", "u">>, <<"description", "v">>, <<"added", "u">>} : Read(x[1], x[2])
Folded == /\ last \in {"description", "added"} /\ ls' = Append(ls, Fold)
          /\ rec' = [rec EXCEPT ![last][Len(rec[last])] = @ \o " w"] /\ UNCHANGED <<known, last>>
End == rec # None /\ last # "type" /\ ls' = Append(ls, Sep) /\ known' = known \cup Finished(rec) /\ rec' = None /\ last' = ""
Next == Len(ls) < MaxLen /\ (Type \/ Of \/ More \/ Folded \/ End)
Spec == Init /\ [][Next]_vars

Right == known \cup Finished(rec) = Denotes(ls)
Kept == [][known \subseteq known']_vars
Out == (Emit /\ last # "type" /\ Len(ls) > 2) => PrintT(<<"CASE", ToJson(ls)>>)
=============================================================================
