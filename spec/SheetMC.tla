------------------------------- MODULE SheetMC -------------------------------
(* Every small sheet, written and read a row at a time, and filled in        *)
EXTENDS Sheet, Json
CONSTANTS MaxRows, Emit
VARIABLES rows, mode, made, phase, at, doc, filled
vars == <<rows, mode, made, phase, at, doc, filled>>

MC_D == ("P" :> [k |-> "path", path |-> "p"]) @@ ("A" :> [k |-> "attr", path |-> "a", att |-> "t"])
     @@ ("1" :> [k |-> "table1d", beg |-> "o/", end |-> ""])
     @@ ("2" :> [k |-> "table2d", beg |-> "c", mid |-> "/", end |-> "e"])
     @@ ("X" :> [k |-> "table2dx", cols |-> <<[beg |-> "x/", end |-> ""], [beg |-> "y/", end |-> ""]>>])
Rows == {<<>>, <<"", "", "">>, <<"", "h", "u">>, <<"", "h", "u", "v">>, <<"P", "", "u">>, <<"P", "", "">>, <<"A", "", "u">>, <<"1", "", "">>, <<"2", "", "f", "g">>,
         <<"2", "", "", "f">>, <<"X", "", "">>, <<"P", "", "v", "w">>, <<"A">>}
\* the documents to fill it with: what is in any of some paths
All == {[path |-> "p", of |-> "p", att |-> "", value |-> "", text |-> "s"], [path |-> Quoted("a", "t", "s"), of |-> "a", att |-> "t", value |-> "s", text |-> ""],
        [path |-> "o/P", of |-> "o/P", att |-> "", value |-> "", text |-> "s"], [path |-> "cf/Pe", of |-> "cf/Pe", att |-> "", value |-> "", text |-> "s"],
        [path |-> "cg/Pe", of |-> "cg/Pe", att |-> "", value |-> "", text |-> "t"], [path |-> "y/h", of |-> "y/h", att |-> "", value |-> "", text |-> "s"]}
Put(m, c, v) == IF c.att # "" THEN m \cup {<<Quoted(c.path, c.att, v), "">>}
                ELSE {x \in m : x[1] # c.path} \cup {<<c.path, v>>}
RECURSIVE PutAll(_, _, _)
PutAll(m, r, cs) == IF cs = {} THEN m ELSE LET c == CHOOSE x \in cs : \A y \in cs : x.col <= y.col
                                           IN PutAll(IF Cell(r, c.col) = "" THEN m ELSE Put(m, c, r[c.col]), r, cs \ {c})
Init == rows = <<>> /\ mode = Idle /\ made = {} /\ phase = "read" /\ at = 0 /\ doc \in SUBSET All /\ filled = <<>>
ReadRow == /\ phase = "read" /\ Len(rows) < MaxRows
           /\ \E r \in Rows : /\ rows' = Append(rows, r)
                              /\ mode' = Then(MC_D, mode, r)
                              /\ made' = PutAll(made, r, Of(MC_D, mode, r))
           /\ UNCHANGED <<phase, at, doc, filled>>
Fill == phase = "read" /\ rows # <<>> /\ phase' = "filled" /\ filled' = Filled(MC_D, rows, doc) /\ UNCHANGED <<rows, mode, made, at, doc>>
Next == ReadRow \/ Fill
Spec == Init /\ [][Next]_vars

\* one row at a time comes to the same
Same == made = Made(MC_D, rows)
\* headings are as they were, so cells are of the same
Kept == phase = "filled" => Cells(MC_D, filled) = Cells(MC_D, rows)
\* and what is read from the filled in sheet is what the document has in those paths, and what cells had that it does not fill
RoundTrip == phase = "filled" =>
  LET cs == {c \in Cells(MC_D, rows) : c.col <= Len(rows[c.row])}
      had == {x \in doc : x.path \in {c.path : c \in {y \in cs : y.att = ""}} \/ \E c \in cs : c.att # "" /\ c.att = x.att /\ c.path = x.of}
      made2 == Made(MC_D, filled)
  IN /\ {<<x.path, x.text>> : x \in had} \subseteq made2
     /\ \A m \in made2 : m \in {<<x.path, x.text>> : x \in had} \/ m \in made
Out == (Emit /\ phase = "filled") => PrintT(<<"CASE", ToJson([rows |-> rows, doc |-> SetToSeq({x.path : x \in doc})])>>)
=============================================================================
