-------------------------------- MODULE Sheet --------------------------------
(* Spreadsheets that say what is where in LDML.                              *)
(*                                                                           *)
(* A row is a sequence of cells. Its first says what the others are of:      *)
(* - a path: the third cell is the text there (or, if it ends in a lone      *)
(*   attribute, the value of that attribute)                                 *)
(* - table1d: in the rows from the next on, until one with no first cell,    *)
(*   the third is the text at the path for the first                         *)
(* - table2d and table2dr: the same, with cells from the third on for as     *)
(*   many headings as this row has, at the path for heading and first cell   *)
(* - table2dx: in the rows from the next on that have no first cell, until   *)
(*   one that has or has nothing at all, cells from the third on are at the  *)
(*   paths for the second cell                                               *)
(* Tables end with their sheet. D maps what first cells say to what it means *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Cell(r, i) == IF i <= Len(r) THEN r[i] ELSE ""
Idle == [k |-> "idle"]
RECURSIVE HeadsFrom(_, _)
HeadsFrom(r, i) == IF Cell(r, i) = "" THEN <<>> ELSE <<r[i]>> \o HeadsFrom(r, i + 1)

\* a row is of the table before it
Within(mode, r) == CASE mode.k = "idle" -> FALSE
                     [] mode.k = "table2dx" -> Len(r) > 1 /\ r[1] = ""
                     [] OTHER -> Cell(r, 1) # ""
\* what the cells of a row are, in a mode: where they are in the row, and the path
Of(D, mode, r) ==
  IF Within(mode, r)
  THEN CASE mode.k = "table1d" -> {[col |-> 3, path |-> mode.d.beg \o r[1] \o mode.d.end, att |-> ""]}
         [] mode.k = "table2d" -> {[col |-> 2 + j, path |-> mode.d.beg \o mode.heads[j] \o mode.d.mid \o r[1] \o mode.d.end, att |-> ""] : j \in 1..Len(mode.heads)}
         [] mode.k = "table2dr" -> {[col |-> 2 + j, path |-> mode.d.beg \o r[1] \o mode.d.mid \o mode.heads[j] \o mode.d.end, att |-> ""] : j \in 1..Len(mode.heads)}
         [] OTHER -> IF r[2] = "" THEN {} ELSE {[col |-> 2 + j, path |-> mode.d.cols[j].beg \o r[2] \o mode.d.cols[j].end, att |-> ""] : j \in 1..Len(mode.d.cols)}
  ELSE IF Cell(r, 1) = "" THEN {}
  ELSE CASE D[r[1]].k = "path" -> {[col |-> 3, path |-> D[r[1]].path, att |-> ""]}
         [] D[r[1]].k = "attr" -> {[col |-> 3, path |-> D[r[1]].path, att |-> D[r[1]].att]}
         [] OTHER -> {}
Then(D, mode, r) ==
  IF Within(mode, r) THEN mode
  ELSE IF Cell(r, 1) = "" \/ (Cell(r, 1) # "" /\ D[r[1]].k \in {"path", "attr"}) THEN Idle
  ELSE [k |-> D[r[1]].k, d |-> D[r[1]], heads |-> IF D[r[1]].k \in {"table2d", "table2dr"} THEN HeadsFrom(r, 3) ELSE <<>>]

\* of all the cells of a sheet, those that are of something
RECURSIVE CellsFrom(_, _, _, _)
CellsFrom(D, rows, i, mode) ==
  IF i > Len(rows) THEN {}
  ELSE {[row |-> i, col |-> x.col, path |-> x.path, att |-> x.att] : x \in Of(D, mode, rows[i])} \cup CellsFrom(D, rows, i + 1, Then(D, mode, rows[i]))
Cells(D, rows) == CellsFrom(D, rows, 1, Idle)
Quoted(path, att, v) == path \o "[@" \o att \o "=\"" \o v \o "\"]"
\* what it makes, as pairs of path and text; of two cells with the same path, the last is kept
Made(D, rows) ==
  LET cs == {c \in Cells(D, rows) : Cell(rows[c.row], c.col) # ""}
      after(a, b) == a.row > b.row \/ (a.row = b.row /\ a.col > b.col)
  IN {IF c.att # "" THEN <<Quoted(c.path, c.att, rows[c.row][c.col]), "">> ELSE <<c.path, rows[c.row][c.col]>> :
        c \in {x \in cs : x.att # "" \/ ~\E y \in cs : y.att = "" /\ y.path = x.path /\ after(y, x)}}

\* what a cell is to have for a document: a set of [path, of (without the last attribute test), att, value, text]
Has(doc, c) == IF c.att = "" THEN {x.text : x \in {y \in doc : y.path = c.path}} \ {""}
               ELSE {x.value : x \in {y \in doc : y.of = c.path /\ y.att = c.att}} \ {""}
RECURSIVE Padded(_, _)
Padded(r, n) == IF Len(r) >= n THEN r ELSE Padded(Append(r, ""), n)
\* the same sheet, with what a document has in its cells
Filled(D, rows, doc) ==
  [i \in 1..Len(rows) |->
     LET cs == {c \in Cells(D, rows) : c.row = i /\ Has(doc, c) # {}}
     IN [j \in 1..Len(rows[i]) |-> LET here == {c \in cs : c.col = j} IN IF here = {} THEN rows[i][j] ELSE CHOOSE v \in Has(doc, CHOOSE c \in here : TRUE) : TRUE]]
=============================================================================
