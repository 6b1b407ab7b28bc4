------------------------------- MODULE AuxTrace -------------------------------
(* Validates recorded runs of the remaining operations of the library: display *)
(* (fmt, eq), other kinds of files (storage, overhead, detect), and histories  *)
(* of several runs that must agree (det, contain, files).                      *)
EXTENDS Swc, Display, OtherFiles, Json, IOUtils
T == INSTANCE Terms
O == INSTANCE Offers
R == INSTANCE Command
Start == INSTANCE Startup

Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT ChunkSize
N == Len(Trace)

VARIABLES l, at, pc, bad,
          got     \* what was extracted for the current event
vars == <<l, at, pc, bad, got>>
ev == Trace[l]

Init == \E i \in 1..N : i % ChunkSize = 1 % ChunkSize /\ l = i /\ at = i /\ pc = Trace[i].op /\ bad = {} /\ got = <<>>

Advance == IF l < N /\ l % ChunkSize # 0
           THEN l' = l + 1 /\ pc' = Trace[l + 1].op
           ELSE l' = l /\ pc' = "end"
Judge(S) == bad' = S /\ at' = l /\ Advance /\ got' = <<>>
Go(S, next) == bad' = S /\ at' = l /\ l' = l /\ pc' = next /\ got' = got

Fmt == pc = "fmt" /\ Judge(V("C14", /\ ShowsValue(ev.unit, ev.v, ev.value)
                                    /\ ShowsValue("scalar", ev.v, ev.scalar)))

\* An equation that was printed for the formula of a function.
Eq == pc = "eq" /\ Judge(V("C15", ev.ok /\ EquationOk(ev.eq, ev.e, ev.unit)))

Storage == pc = "storage" /\ Judge(V("C17",
  /\ (ev.res.tag = "ok") = StorageOk(ev.f)
  /\ StorageOk(ev.f) => ev.res.w = DbOf(DbMacros(ev.f)[1])))
Overhead == pc = "overhead" /\ Judge(V("C17",
  /\ (ev.res.tag = "ok") = OverheadOk(ev.f)
  /\ OverheadOk(ev.f) => ev.res.w = OverOf(OverMacros(ev.f)[1])))
Detect == pc = "detect" /\ Judge(V("C17",
  /\ ev.res.tag = KindOf(ev.f)
  /\ ev.res.tag = "pallet" => ev.res.names = [i \in 1..Len(Extract("", ev.f)) |-> Extract("", ev.f)[i].name]
  /\ ev.res.tag = "storage" => ev.res.w = DbOf(DbMacros(ev.f)[1])
  /\ ev.res.tag = "overhead" => ev.res.w = OverOf(OverMacros(ev.f)[1])))

---------------------------------------------------------------------------
(* Histories of runs.  The n rows of all steps of the first run are numbered;  *)
(* later runs are given as positions, 0 for a row that the first run has not.  *)
Identity(n) == [i \in 1..n |-> i]
SinglePoint(m) == m \in {"base", "asymptotic", "exact-asymptotic"}

\* Repeat (in the same and in another process), permute the files, exchange both sides.
Repeat == pc = "det" /\ Go(V("C26", /\ ev.again = Identity(ev.n)
                                    /\ ev.other = Identity(ev.n)), "permute")
Permute == pc = "permute" /\ Go(V("C26", ev.perm = Identity(ev.n)), "swap")

Swapped(a, b, m) ==
  /\ a.file = b.file /\ a.name = b.name
  /\ (a.kind = "failed") = (b.kind = "failed")
  /\ a.kind # "failed" =>
       /\ b.change = (CASE a.change = "added" -> "removed" [] a.change = "removed" -> "added" [] OTHER -> a.change)
       /\ SinglePoint(m) => a.old = b.new /\ a.new = b.old /\ a.scope = b.scope
Swap == pc = "swap" /\ Judge(V("C26", /\ Len(ev.rows) = Len(ev.swapped)
                                      /\ \A i \in 1..Len(ev.rows) : Swapped(ev.rows[i], ev.swapped[i], ev.method)))

\* Leaving out an extrinsic that cannot be compared removes its row, and nothing else.
Contain ==
  /\ pc = "contain"
  /\ got' = [olds |-> ExtractAll(ev.old, 1), news |-> ExtractAll(ev.new, 1), fails |-> <<>>]
  /\ bad' = {} /\ at' = l /\ l' = l /\ pc' = "failing"
Failing ==
  /\ pc = "failing"
  /\ got' = [got EXCEPT !.fails = [i \in 1..Len(ev.rows) |-> Fails(PairOf(got.olds, got.news, <<ev.rows[i].file, ev.rows[i].name>>), ev.method)]]
  /\ bad' = {} /\ at' = l /\ l' = l /\ pc' = "contained"
Contained == pc = "contained" /\ Judge(V("C12",
  LET keys == Keys(got.olds, got.news) IN
  /\ ev.res.tag = "ok"
  /\ {<<ev.rows[i].file, ev.rows[i].name>> : i \in 1..Len(ev.rows)} = keys
  /\ Len(ev.rows) = Cardinality(keys)
  /\ \A i \in 1..Len(ev.rows) : got.fails[i] = (ev.rows[i].kind = "failed")
  \* the run without the failing ones
  /\ ev.without = SelectSeq(Identity(Len(ev.rows)), LAMBDA i : ~got.fails[i])))

\* Reading files from the disk.  A file is [name, readable, f].
FileOk(x) == x.readable /\ ParsesOk(x.f)
RECURSIVE Names(_, _)
Names(fs, i) == IF i > Len(fs) THEN <<>>
                ELSE (IF FileOk(fs[i])
                      THEN [j \in 1..Len(Extract(fs[i].name, fs[i].f)) |-> <<fs[i].name, Extract(fs[i].name, fs[i].f)[j].name>>]
                      ELSE <<>>) \o Names(fs, i + 1)
Files == pc = "files" /\ Judge(V("C12",
  LET allOk == \A i \in 1..Len(ev.files) : FileOk(ev.files[i]) IN
  IF ev.ignore \/ allOk
  THEN ev.res.tag = "ok" /\ ev.res.exts = Names(ev.files, 1)
  ELSE /\ ev.res.tag = "err"
       /\ \E i \in 1..Len(ev.files) : ~FileOk(ev.files[i]) /\ Contains(ev.res.msg, ev.files[i].name)))

---------------------------------------------------------------------------
(* Any text at all, whose meaning is not specified here: the parsers give a    *)
(* result or an error, the kind of the file is the first one whose parser      *)
(* accepts it, and comparing the content with itself changes nothing.          *)
Total(x) == x \in {"ok", "err"}
SelfCompare(c, exts) ==
  /\ c.tag = "ok"
  /\ {<<c.rows[i][2], c.rows[i][1]>> : i \in 1..Len(c.rows)} = {<<exts[i].pallet, exts[i].name>> : i \in 1..Len(exts)}
  /\ \A i, j \in 1..Len(c.rows) : i # j => c.rows[i][1] # c.rows[j][1]
  /\ \A i \in 1..Len(c.rows) : c.rows[i][3] \in {"unchanged", "failed"}
Raw == pc = "raw" /\ Judge(
  IF ev.panic THEN V("C04", FALSE)
  ELSE V("C04", Total(ev.ext) /\ Total(ev.db) /\ Total(ev.over))
       \cup V("C17", ev.kind = (CASE ev.ext = "ok" -> "pallet" [] ev.db = "ok" -> "storage" [] ev.over = "ok" -> "overhead" [] OTHER -> "none"))
       \cup V("C03", \A i \in 1..Len(ev.exts) : \A j \in 1..Len(ev.exts[i].ranges) :
                      BLeq(ev.exts[i].ranges[j][2], ev.exts[i].ranges[j][3]) /\ BLeq(ev.exts[i].ranges[j][3], U32Max))
       \cup V("C02", (ev.ext = "ok") = (ev.exts # <<>>))
       \cup V("C04", \A i \in 1..Len(ev.selfs) : SelfCompare(ev.selfs[i], ev.exts))
       \cup V("C08", \A i \in 1..Len(ev.selfs) : SelfCompare(ev.selfs[i], ev.exts)))

\* Operations on terms and scopes.
Term == pc = "term" /\ Judge(V("C27", ~ev.panic /\ T!TermOk(ev)))
CTerm == pc = "cterm" /\ Judge(V("C27", ~ev.panic /\ T!CTermOk(ev)))
TermsConsistent == pc = "term" => T!TermLaws(ev)

\* What the tools offer.
NamedOptions == pc = "names" /\ Judge(V("C28", ~ev.panic /\ O!NamesOk(ev)))
RunOf == pc = "command" /\ Judge(V("C30", R!CommandOk(ev)))
Offered == pc = "offers" /\ Judge(V("C28", O!OffersOk(ev)))
Started == pc = "startup" /\ Judge(V("C31", Start!StartupOk(ev)))

Done == pc = "end" /\ UNCHANGED vars
Next == Fmt \/ Eq \/ Storage \/ Overhead \/ Detect \/ Repeat \/ Permute \/ Swap \/ Contain \/ Failing \/ Contained \/ Files \/ Raw \/ Term \/ CTerm \/ NamedOptions \/ Offered \/ RunOf \/ Started \/ Done
Spec == Init /\ [][Next]_vars

Accepted_ == bad = {}
Walked == pc = "end" => (l = N \/ l % ChunkSize = 0)
=============================================================================
