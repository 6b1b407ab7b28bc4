------------------------------ MODULE SwcTrace ------------------------------
(* Validates a trace recorded from the real library against Swc.  The trace is *)
(* cut into chunks, each of which is walked from an initial state of its own,  *)
(* so that TLC's workers share the work.  Every line of the trace is one run   *)
(* of the pipeline; its steps are separate transitions.                        *)
EXTENDS Swc, Page, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT ChunkSize
N == Len(Trace)

VARIABLES l,      \* current line
          at,     \* the line judged last
          pc,     \* next step of the pipeline
          olds, news,   \* extrinsics of both sides
          rows, kept,   \* positions are used for kept rows
          bad     \* properties violated so far
vars == <<l, at, pc, olds, news, rows, kept, bad>>

ev == Trace[l]
Start(e) == e.op

InitAt(i) ==
  /\ l = i /\ at = i
  /\ pc = Start(Trace[i])
  /\ olds = <<>> /\ news = <<>> /\ rows = <<>> /\ kept = <<>> /\ bad = {}
Init == \E i \in 1..N : i % ChunkSize = 1 % ChunkSize /\ InitAt(i)

Blame(S) == bad' = S /\ at' = l

\* The event is done; go on with the next one of the chunk.
Advance ==
  /\ IF l < N /\ l % ChunkSize # 0
     THEN l' = l + 1 /\ pc' = Start(Trace[l + 1])
     ELSE l' = l /\ pc' = "end"
  /\ olds' = <<>> /\ news' = <<>> /\ rows' = <<>> /\ kept' = <<>>

ParseOne ==
  /\ pc = "parse"
  /\ Blame(ParseViol(ev.pallet, ev.f, ev.res))
  /\ Advance

(* A run of the command line: its arguments and the files it cannot read are   *)
(* judged first, the comparison itself is that of the remaining files, and the *)
(* report is judged last.                                                      *)
IsCli == ev.op = "cli"
Cli ==
  /\ pc = "cli"
  /\ LET a == ev.args
         readable == ev.badfiles = <<>> /\ AllParse(ev.old) /\ AllParse(ev.new)
     IN IF ~ArgsOk(a) \/ ~Implemented(a) \/ (~readable /\ ~a.ignore)
        THEN /\ Blame(V("C16", ev.rep.form = "fail") \cup
                      V("C12", (~readable /\ ~a.ignore /\ ArgsOk(a)) =>
                                 /\ ev.rep.form = "fail"
                                 \* the message names the file
                                 /\ \E i \in 1..Len(ev.badfiles) : Contains(ev.rep.err, ev.badfiles[i])))
             /\ Advance
        ELSE Blame({}) /\ pc' = "compare" /\ UNCHANGED <<l, olds, news, rows, kept>>

(* compare: Parse, Evaluate, Filter, Sort                                      *)
Parse ==
  /\ pc = "compare"
  /\ LET parses == AllParse(ev.old) /\ AllParse(ev.new) IN
     IF ev.res.tag = "panic" THEN Blame(V("C04", FALSE) \cup V("C12", FALSE)) /\ Advance
     ELSE IF parses /\ ev.res.tag = "err" /\ "hard" \in {ev.palf.k, ev.extf.k}
     THEN Blame({}) /\ Advance
     ELSE IF ~parses \/ ev.res.tag # "ok"
     THEN /\ Blame(V("C02", parses = (ev.res.tag # "parse_err"))
                   \cup V("C12", parses = (ev.res.tag = "ok"))
                   \cup V("C04", parses => ev.res.tag = "ok"))
          /\ Advance
     ELSE /\ Blame({})
          /\ olds' = ExtractAll(ev.old, 1)
          /\ news' = ExtractAll(ev.new, 1)
          /\ pc' = "evaluate"
          /\ UNCHANGED <<l, rows, kept>>

Evaluate ==
  /\ pc = "evaluate"
  /\ rows' = ev.res.rows
  /\ Blame(EvalViol(ev.res.rows, olds, news, ev))
  /\ pc' = "filter"
  /\ UNCHANGED <<l, olds, news, kept>>

Filter ==
  /\ pc = "filter"
  /\ kept' = ev.res.kept
  /\ Blame(FilterViol(rows, ev.res.kept, ev))
  /\ pc' = "sort"
  /\ UNCHANGED <<l, olds, news, rows>>

Sort ==
  /\ pc = "sort"
  /\ Blame(SortViol(rows, kept, ev.res.sorted, ev.res.resorted))
  /\ IF IsCli THEN pc' = "report" /\ UNCHANGED <<l, olds, news, rows, kept>>
     ELSE IF ev.op = "web" THEN pc' = "page" /\ UNCHANGED <<l, olds, news, rows, kept>>
     ELSE Advance

Report_ ==
  /\ pc = "report"
  /\ Blame(V("C16", ReportOk(ev.rep, rows, ev.res.terms, ev.res.sorted, ev.args, ev.unit))
           \cup V("C11", OrderOk(ev.rep, rows, ev.res.sorted, ev.args)))
  /\ Advance

(* A comparison of commits by the web service: the page is judged last.        *)
Web ==
  /\ pc = "web"
  /\ LET readable == ev.badfiles = <<>> /\ AllParse(ev.old) /\ AllParse(ev.new) IN
     IF ~readable /\ ~ev.args.ignore
     THEN Blame(V("C24", ev.page.status = 500)) /\ Advance
     ELSE IF ~(AllParse(ev.old) /\ AllParse(ev.new)) THEN Blame({}) /\ Advance
     ELSE Blame({}) /\ pc' = "compare" /\ UNCHANGED <<l, olds, news, rows, kept>>
Page_ ==
  /\ pc = "page"
  /\ Blame(V("C24", PageOk(ev.page, rows, ev.res.terms, ev.res.sorted, ev.args, ev.unit)))
  /\ Advance

Done == pc = "end" /\ UNCHANGED vars
Next == ParseOne \/ Parse \/ Evaluate \/ Filter \/ Sort \/ Cli \/ Report_ \/ Web \/ Page_ \/ Done
Spec == Init /\ [][Next]_vars

Accepted_ == bad = {}
\* Every line was walked to its end.
Walked == pc = "end" => (l = N \/ l % ChunkSize = 0)
=============================================================================
