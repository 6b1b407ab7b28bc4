--------------------------------- MODULE Page ---------------------------------
(* The result page of the web service (property C24).  A page is               *)
(*   [status, rows, errors, nerr, warnings, nwarn, echo, raw, title]           *)
(* as it is shown (that is, after decoding the HTML): nerr and nwarn are the   *)
(* numbers that are displayed ("" if there is none).  A row is                 *)
(*   [file, name, id, anchor, warn, old, new, rel, abs, oldeq, neweq, vars]    *)
(* where old, new, rel, abs are [t, color, neg, key]: text, colour and sort    *)
(* key; oldeq and neweq are [t, link, frag]: text, the path on the code host   *)
(* that is linked to, and the text that is searched there; vars are            *)
(* [n, t] pairs.                                                               *)
EXTENDS Report, TLC

I128Max == BSub(BPow(<<2>>, 127), BOne)
Key(neg, v) == [neg |-> neg /\ v # <<>>, v |-> v]
\* The sort keys a < b.
KeyLt(a, b) == CASE a.neg /\ ~b.neg -> TRUE
                 [] ~a.neg /\ b.neg -> FALSE
                 [] a.neg /\ b.neg  -> BLess(b.v, a.v)
                 [] OTHER           -> BLess(a.v, b.v)
KeyOf(c) == Key(c.neg, c.key)

PageValue(unit, o, c) ==
  IF Some(o) THEN ShowsValue(unit, Get(o), c.t) /\ KeyOf(c) = Key(FALSE, Get(o))
  ELSE c.t = "-" /\ KeyOf(c) = Key(FALSE, <<>>)

NoPlain(t) == t \in {"Unchanged", "Added", "Removed"}
PagePct(row, c) ==
  CASE row.change = "unchanged" -> c.t = "Unchanged" /\ KeyOf(c) = Key(FALSE, <<>>)
    [] row.change = "added"     -> c.t = "Added"
    [] row.change = "removed"   -> c.t = "Removed"
    [] row.pct.cls = "fin" /\ row.pct.u = <<>> /\ c.t \in {"0", "-0", "0%"} -> TRUE
    [] OTHER -> /\ Len(c.t) > 1 /\ Ch(c.t, Len(c.t)) = "%"
                /\ PctShown(row.pct, SubSeq(c.t, 1, Len(c.t) - 1))
                /\ row.pct.u # <<>> => c.color = (IF row.pct.neg THEN "green" ELSE "red")

PageAbs(unit, row, c) ==
  CASE row.change = "unchanged" -> c.t = "Unchanged" /\ KeyOf(c) = Key(FALSE, <<>>)
    [] row.change = "added"     -> c.t = "Added"
    [] row.change = "removed"   -> c.t = "Removed"
    [] OTHER -> LET o == Get(row.old)
                    n == Get(row.new)
                    d == BDiff(o, n) IN
                /\ KeyOf(c) = Key(BLess(n, o), BMin(d, I128Max))
                /\ IF d = <<>> THEN c.t = "0"
                   ELSE /\ Len(c.t) > 1
                        /\ Ch(c.t, 1) = (IF BLess(n, o) THEN "-" ELSE "+")
                        /\ c.color = (IF BLess(n, o) THEN "green" ELSE "red")
                        /\ ShowsValue(unit, d, SubSeq(c.t, 2, Len(c.t)))

\* The equation of row in revision rev, with the link to its code.
PageEq(row, f, c, a, rev) ==
  IF ~Some(f) THEN c.t = "-" /\ c.link = ""
  ELSE /\ c.t = Get(f)
       /\ c.link = "/" \o a.org \o "/" \o a.repo \o "/tree/" \o rev \o "/" \o row.file
       /\ c.frag = ":~:text=fn " \o row.name

VarsOk(vars, scope) ==
  /\ Len(vars) = Len(scope)
  /\ \A i \in 1..Len(scope) : \E j \in 1..Len(vars) :
       vars[j].n = scope[i].n /\ ShowsValue("scalar", scope[i].v, vars[j].t)

\* The row r of the page shows row, of which f is [old, new]: the equations.
PageRow(r, row, f, a, unit) ==
  /\ r.file = row.file /\ r.name = row.name
  /\ r.id = row.file \o "." \o row.name /\ r.anchor = "#" \o r.id
  /\ r.warn = (row.kind = "warning")
  /\ PageValue(unit, row.old, r.old) /\ PageValue(unit, row.new, r.new)
  /\ PagePct(row, r.rel) /\ PageAbs(unit, row, r.abs)
  /\ PageEq(row, f.old, r.oldeq, a, a.old) /\ PageEq(row, f.new, r.neweq, a, a.new)
  /\ VarsOk(r.vars, row.scope)

---------------------------------------------------------------------------
(* Sorting by the keys of a column sorts by what the column shows.             *)
(* Percentages have a resolution of 0.001 points up to 4294967 per cent.       *)
Capped(p) == p.cls # "fin" \/ (~p.neg /\ ~BLess(p.u, BMul(BFromNat(4294967), <<0, 0, 0, 1>>)))
ZeroPct == [cls |-> "fin", neg |-> FALSE, u |-> <<>>]
PctOf(row) == IF row.change = "changed" THEN row.pct ELSE ZeroPct
Between(row) == row.change \in {"changed", "unchanged"}
RelSorted(x, kx, y, ky) ==     \* rows x, y with keys kx, ky
  CASE Between(x) /\ Between(y) ->
         PctMuchGreater(PctOf(x), PctOf(y)) =>
           IF Capped(PctOf(y)) THEN ~KeyLt(kx, ky) ELSE KeyLt(ky, kx)
    [] x.change = "added" -> y.change # "added" => KeyLt(ky, kx)
    [] x.change = "removed" -> y.change # "removed" => KeyLt(kx, ky)
    [] OTHER -> TRUE
AbsSorted(x, kx, y, ky) ==
  CASE x.change = "added"   -> ~KeyLt(kx, ky)
    [] x.change = "removed" -> ~KeyLt(ky, kx)
    [] OTHER -> TRUE

---------------------------------------------------------------------------
\* The elements of A are those of B, as often.
Bag(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

Notes(rows, sorted, kind) == LET S == SelectSeq(sorted, LAMBDA i : rows[i].kind = kind) IN [j \in 1..Len(S) |-> rows[S[j]].msg]
NotesOk(rows, sorted, kind, list, n) ==
  LET want == Notes(rows, sorted, kind) IN
  /\ Bag(list) = Bag(want)
  /\ n = (IF want = <<>> THEN "" ELSE ToString(Len(want)))

PageOk(page, rows, terms, sorted, a, unit) ==
  LET want == SelectSeq(sorted, LAMBDA i : rows[i].kind # "failed")
      \* rows are identified by file and name
      of(r) == {j \in 1..Len(want) : rows[want[j]].file = r.file /\ rows[want[j]].name = r.name}
      src(r) == want[CHOOSE j \in of(r) : TRUE]
  IN /\ page.status = 200
     /\ page.echo = page.raw
     /\ Len(page.rows) = Len(want)
     /\ \A i \in 1..Len(page.rows) : of(page.rows[i]) # {}
     /\ \A j \in 1..Len(want) : \E i \in 1..Len(page.rows) :
          page.rows[i].file = rows[want[j]].file /\ page.rows[i].name = rows[want[j]].name
     /\ LET from == TLCEval([i \in 1..Len(page.rows) |-> src(page.rows[i])])
            rel == TLCEval([i \in 1..Len(page.rows) |-> KeyOf(page.rows[i].rel)])
            abs == TLCEval([i \in 1..Len(page.rows) |-> KeyOf(page.rows[i].abs)]) IN
        /\ \A i \in 1..Len(page.rows) : PageRow(page.rows[i], rows[from[i]], terms[from[i]], a, unit)
        /\ \A i, j \in 1..Len(page.rows) :
             /\ RelSorted(rows[from[i]], rel[i], rows[from[j]], rel[j])
             /\ AbsSorted(rows[from[i]], abs[i], rows[from[j]], abs[j])
     /\ NotesOk(rows, sorted, "failed", page.errors, page.nerr)
     /\ NotesOk(rows, sorted, "warning", page.warnings, page.nwarn)
=============================================================================
