------------------------------ MODULE Command ------------------------------
(* The command line as a whole (C30): how a run ends, for whatever arguments.  *)
(* A run e has                                                                 *)
(*   cmd      "usage" (no or an unknown subcommand, a missing argument),       *)
(*            "info" (--help, --version), "parse", "files" or "commits"        *)
(*   flaws    what is wrong with its options, see Flaws                        *)
(*   ignore   whether --ignore-errors is given                                 *)
(*   files    sequence of [name, kind, f]: kind is "text" for a file with the  *)
(*            contents f, or why it cannot be read; for "commits", the         *)
(*            matching files of both revisions                                 *)
(*   refs     for "commits": whether [old, new] exist                          *)
(*   origin   for "commits": whether a remote has to be asked                  *)
(*   rows     whether the report has rows to which the options apply           *)
(*   end      "ok", "fail", "panic" or "hang"                                  *)
(*   said     the numbers of files in the output                               *)
(*   told     whether there is an error message                                *)
(*   named    the names of the files in the error message                      *)
(*   info     whether the help or version is shown                             *)
EXTENDS WeightFile, FiniteSets

\* What the parser of the arguments refuses.
BadWords == {"method", "unit", "change", "threshold", "format", "option"}
\* What is refused when it is used.
BadValues == {"unsupported", "palf", "extf", "repo", "norepo", "pattern", "dots"}
\* What can only fail when there is something to apply it to, or may be too expensive for it.
Depends == {"strip", "heavy-strip"}
Flaws == BadWords \cup BadValues \cup Depends

IsUsable(x) == x.kind = "text" /\ ParsesOk(x.f)
Unusable(e) == {i \in 1..Len(e.files) : ~IsUsable(e.files[i])}

(* The ways in which a run can end.                                            *)
Outcomes(e) ==
  LET fl == {e.flaws[i] : i \in 1..Len(e.flaws)} IN
  CASE e.cmd = "info" -> {"ok"}
    [] e.cmd = "usage" \/ fl \cap BadWords # {} -> {"fail"}
    [] e.cmd = "parse" -> {IF Unusable(e) = {} THEN "ok" ELSE "fail"}
    [] fl \cap BadValues # {} -> {"fail"}
    [] e.cmd = "commits" /\ (~e.refs \/ e.origin) -> {"fail"}
    [] ~e.ignore /\ Unusable(e) # {} -> {"fail"}
    [] "strip" \in fl /\ e.rows -> {"fail"}
    [] fl \cap Depends # {} -> {"ok", "fail"}
    [] OTHER -> {"ok"}

CommandOk(e) ==
  /\ e.end \in Outcomes(e)
  /\ e.end = "fail" => e.told
  /\ (e.cmd = "info") => e.info
  \* The files that were parsed are counted as files.
  /\ (e.cmd = "parse" /\ e.end = "ok") => e.said # <<>> /\ \A i \in 1..Len(e.said) : e.said[i] = Len(e.files)
  \* The error is about a file that is to blame, and names no other.
  /\ (e.cmd = "parse" /\ e.end = "fail" /\ e.flaws = <<>>) =>
       /\ e.named # <<>>
       /\ \A i \in 1..Len(e.named) : \E j \in Unusable(e) : e.files[j].name = e.named[i]
=============================================================================
