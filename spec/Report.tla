-------------------------------- MODULE Report --------------------------------
(* The reports of the command line (property C16): how the rows of a           *)
(* comparison are shown in the human-readable, markdown and CSV format.        *)
(* A printed report is [form, header, rows], form being                        *)
(*   "fail"  an exit status other than zero, and nothing on stdout             *)
(*   "empty" the message that there are no changes (or nothing at all, where   *)
(*           messages go to the log)                                           *)
(*   "table", "markdown" or "csv" with the header's and the rows' cells; a row is *)
(*           [cells |-> strings, color |-> of the change, vars |-> variables]  *)
(*   "other" anything else                                                     *)
EXTENDS Compare, Display

Lower(s) ==
  LET U == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
      Lw == "abcdefghijklmnopqrstuvwxyz"
      RECURSIVE At(_)
      At(i) == IF i > Len(s) THEN ""
               ELSE (IF \E k \in 1..26 : Ch(U, k) = Ch(s, i)
                     THEN Ch(Lw, CHOOSE k \in 1..26 : Ch(U, k) = Ch(s, i)) ELSE Ch(s, i)) \o At(i + 1)
  IN At(1)

(* Arguments: method, unit, format and change-types are words in any case.     *)
ArgsOk(a) ==
  /\ Lower(a.method) \in Methods
  /\ Lower(a.unit) \in {"time", "proof"}
  /\ Lower(a.format) \in {"human", "brief-human", "csv", "json", "markdown"}
  /\ \A i \in 1..Len(a.change) : Lower(a.change[i]) \in {"changed", "unchanged", "added", "removed"}
  /\ a.thrOk                        \* the threshold is a number
  /\ a.palf.k # "bad" /\ a.extf.k # "bad"
Implemented(a) == Lower(a.format) \in {"human", "csv", "markdown"}

(* --strip-path-prefix removes every match.                                    *)
RECURSIVE RemoveAll(_, _)
RemoveAll(s, t) ==
  IF Len(s) < Len(t) THEN s
  ELSE IF StartsWith(s, t) THEN RemoveAll(SubSeq(s, Len(t) + 1, Len(s)), t)
  ELSE Ch(s, 1) \o RemoveAll(SubSeq(s, 2, Len(s)), t)
RECURSIVE AfterLast(_, _, _)
AfterLast(s, c, i) == IF i = 0 THEN s ELSE IF Ch(s, i) = c THEN SubSeq(s, i + 1, Len(s)) ELSE AfterLast(s, c, i - 1)
Stripped(s, p) ==
  CASE p.k = "none" -> s
    [] p.k = "lit"  -> RemoveAll(s, p.s)
    [] p.k = "pre"  -> IF StartsWith(s, p.s) THEN SubSeq(s, Len(p.s) + 1, Len(s)) ELSE s
    [] p.k = "upto" -> AfterLast(s, p.s, Len(s))         \* up to the last p.s (one character)

(* "+12.34" shows the percentage p: two decimals and always a sign.            *)
PctShown(p, t) ==
  IF p.cls = "+inf" THEN t = "+inf"
  ELSE LET s == Shown(SubSeq(t, 2, Len(t)))
           sh == BMul(BParse(s.whole \o s.frac), <<0, 0, 100>>)    \* in units of 10^-12
       IN /\ p.cls = "fin"
          /\ s.ok /\ s.unit = "" /\ Len(s.frac) = 2
          /\ (p.u # <<>> => Ch(t, 1) = (IF p.neg THEN "-" ELSE "+"))
          /\ (p.u = <<>> => Ch(t, 1) \in {"-", "+"})
          \* |sh - u| <= 0.005 + float slack
          /\ BLeq(BDiff(sh, p.u), BAdd(<<1, 0, 50>>, Ppt(p.u)))

ValueShown(unit, o, t) == IF Some(o) THEN ShowsValue(unit, Get(o), t) ELSE t = ""

ChangeShown(row, c, color, noColor) ==
  CASE row.change = "unchanged" -> c = "Unchanged" /\ color = ""
    [] row.change = "added"     -> c = "Added" /\ color = (IF noColor THEN "" ELSE "red")
    [] row.change = "removed"   -> c = "Removed" /\ color = (IF noColor THEN "" ELSE "green")
    [] OTHER -> /\ PctShown(row.pct, c)
                /\ LET byValue == IF BLess(Get(row.new), Get(row.old)) THEN "green" ELSE "red"
                       none == row.pct.cls = "fin" /\ row.pct.u = <<>> IN      \* less than 10^-12 %
                   IF noColor THEN color = ""
                   ELSE IF ~none THEN color = (IF row.pct.neg THEN "green" ELSE "red")
                   ELSE color = "white" \/ (row.old # row.new /\ color = byValue)

Orelse(o) == IF Some(o) THEN Get(o) ELSE "-"
(* The printed row r shows row, of which f is [old, new]: the equations.       *)
ShowsRow(r, row, f, a, unit) ==
  LET file == IF Lower(a.format) = "csv" THEN row.file ELSE Stripped(row.file, a.strip)
      n == IF a.terms THEN 8 ELSE 5 IN
  IF row.kind = "failed"
  THEN /\ Len(r.cells) \in {5, n}
       /\ SubSeq(r.cells, 1, 5) = <<file, row.name, "-", "-", "ERROR">>
       /\ r.color = ""
       /\ \A i \in 6..Len(r.cells) : r.cells[i] = ""
  ELSE /\ Len(r.cells) = n
       /\ r.cells[1] = file /\ r.cells[2] = row.name
       /\ ValueShown(unit, row.old, r.cells[3])
       /\ ValueShown(unit, row.new, r.cells[4])
       /\ ChangeShown(row, r.cells[5], r.color, a.noColor)
       /\ a.terms =>
            /\ r.cells[6] = Orelse(f.old)
            /\ r.cells[7] = Orelse(f.new)
            /\ {r.vars[i] : i \in 1..Len(r.vars)} = {row.scope[i] : i \in 1..Len(row.scope)}
            /\ Len(r.vars) = Len(row.scope)

Columns(a) == CASE Lower(a.format) = "csv" -> <<"File", "Extrinsic", "Old", "New", "Change Percent">>
                [] OTHER -> <<"File", "Extrinsic", "Old", "New", "Change [%]">>
Header(a) == Columns(a) \o (IF a.terms THEN <<"Old Weight Term", "New Weight Term", "Used variables">> ELSE <<>>)

(* The rows that a report prints, as positions, in order: errors first (except *)
(* in CSV, which has no errors), then the rest; sorted, worst first.           *)
Printed(rows, sorted, a) ==
  LET rev == [i \in 1..Len(sorted) |-> sorted[Len(sorted) + 1 - i]]
      isErr(i) == rows[i].kind = "failed"
  IN (IF Lower(a.format) = "csv" THEN <<>> ELSE SelectSeq(rev, isErr))
     \o SelectSeq(rev, LAMBDA i : ~isErr(i))

ReportForms(a) == CASE Lower(a.format) = "csv" -> {"csv"}
                    [] Lower(a.format) = "markdown" -> {"markdown"}
                    [] OTHER -> {"table", "markdown"}

(* C16: the report shows exactly the rows.                                     *)
ReportOk(rep, rows, terms, sorted, a, unit) ==
  IF sorted = <<>> THEN rep.form = "empty"
  ELSE LET want == Printed(rows, sorted, a) IN
       /\ rep.form \in ReportForms(a)
       /\ rep.header = Header(a)
       /\ Len(rep.rows) = Len(want)
       /\ LET shows(i, j) == ShowsRow(rep.rows[i], rows[want[j]], terms[want[j]], a, unit) IN
          \A i \in 1..Len(want) : /\ (shows(i, i) \/ \E j \in 1..Len(want) : shows(i, j))
                                 /\ (shows(i, i) \/ \E j \in 1..Len(want) : shows(j, i))

(* C11: in the right order.  Rows that are printed alike may be exchanged.     *)
OrderOk(rep, rows, sorted, a) ==
  LET want == Printed(rows, sorted, a) IN
  (sorted # <<>> /\ rep.form \in {"table", "markdown", "csv"}) =>
    /\ Len(rep.rows) = Len(want)
    /\ \A i \in 1..Len(want) :
         /\ Len(rep.rows[i].cells) >= 2
         /\ rep.rows[i].cells[1] = (IF Lower(a.format) = "csv" THEN rows[want[i]].file ELSE Stripped(rows[want[i]].file, a.strip))
         /\ rep.rows[i].cells[2] = rows[want[i]].name
=============================================================================
