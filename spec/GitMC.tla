-------------------------------- MODULE GitMC --------------------------------
(* Histories of comparisons and of changes to both repositories.  Model        *)
(* checking shows that the steps of a comparison reach exactly the commits     *)
(* that the refs denote and leave all branches alone; simulation writes        *)
(* histories that are replayed on the real code.                               *)
EXTENDS GitRepo, Json

CONSTANTS Branches, TagNames, MaxCommits, MaxLen, MaxHead, Record,
          FaultKinds      \* faults that comparisons may meet

VARIABLES par, rh, rt, lo,   \* see GitRepo
          hist,              \* the history so far (if recorded)
          okSteps, done
vars == <<par, rh, rt, lo, hist, okSteps, done>>

Init ==
  /\ par = <<0, 1>>                    \* two commits, cloned
  /\ rh = ("main" :> 2) /\ rt = Empty
  /\ lo = [heads |-> ("main" :> 2), tags |-> Empty, track |-> ("main" :> 2), head |-> Sym("main"),
           known |-> {1, 2}, fetched |-> 0, tree |-> 2]
  /\ hist = <<>> /\ okSteps = TRUE /\ done = FALSE

Note(e) == hist' = IF Record THEN Append(hist, e) ELSE <<Len(hist)>>

EnvOps == [op : {"rcommit", "rdelete", "lcommit", "lcheckout"}, b : Branches, c : {0}]
          \cup [op : {"rbranch", "rforce", "lbranch"}, b : Branches, c : 1..Len(par)]
          \cup [op : {"rtag", "ltag"}, b : TagNames, c : 1..Len(par)]
          \cup [op : {"ldetach"}, b : {""}, c : 1..Len(par)]
          \cup [op : {"ufetch"}, b : {""}, c : {0}]
Enabled(ops) == {e \in EnvOps : /\ e.op \in ops
                                /\ EnvEnabled(par, rh, rt, lo, e, Branches, TagNames)
                                /\ CreatesCommit(e) => Len(par) < MaxCommits}
EnvOne(e) ==
    /\ LET S == EnvStep(par, rh, rt, lo, e) IN
       par' = S.par /\ rh' = S.rh /\ rt' = S.rt /\ lo' = S.lo
    /\ Note([t |-> "env", e |-> e])
    /\ UNCHANGED okSteps
Env(ops) == \E e \in Enabled(ops) : EnvOne(e)
RemoteGrows == Env({"rcommit"})
RemoteRefs  == Env({"rbranch", "rforce", "rdelete", "rtag"})
LocalGrows  == Env({"lcommit"})
LocalRefs   == Env({"lbranch", "ltag"})
LocalUse    == Env({"lcheckout", "ldetach", "ufetch"})

CONSTANT Ignores     \* values of p.ignore
Params == [pull : BOOLEAN, force : BOOLEAN, offline : BOOLEAN, ignore : Ignores]
Refs(p) == {Ref("name", n, 0) : n \in Branches \cup TagNames}
           \cup {Ref("hash", "", c) : c \in 1..Len(par)} \cup {Ref("short", "", c) : c \in 1..Len(par)}
           \cup (IF p.force THEN {} ELSE {Ref("head", "", k) : k \in 0..MaxHead})
           \cup {Ref("bad", "", 0), Ref("unknown", "", 0)}

\* The outcome is as it should be.
StepOk(old, new, p, fault, out) ==
  LET d1 == {c \in Denotes(par, rh, rt, lo, old, p) : Readable(c, p)}
      d2 == {c \in Denotes(par, rh, rt, lo, new, p) : Readable(c, p)} IN
  /\ out.res # <<0, 0>> => out.res[1] \in d1 /\ out.res[2] \in d2 /\ out.lo.tree = out.res[2]
  /\ HeadsOk(par, rh, lo, out.lo, {old, new}, p)
  /\ (~p.pull \/ p.offline) => (out.lo.track = lo.track /\ out.lo.known = lo.known)
  \* what is denoted is compared
  /\ (fault = "none" /\ (~p.pull \/ p.offline) /\ d1 # {} /\ d2 # {}) => out.res # <<0, 0>>
  /\ (/\ fault = "none" /\ p.pull /\ ~p.offline /\ d1 # {} /\ d2 # {}
      /\ old.k = "name" /\ new.k = "name" /\ old.n \in DOMAIN rh /\ new.n \in DOMAIN rh) => out.res # <<0, 0>>
  /\ HeadCommit(out.lo) = out.lo.tree

CompareOne(old, new, p, fault, at, outs) ==
    /\ \E out \in outs : /\ lo' = out.lo
                         /\ okSteps' = StepOk(old, new, p, fault, out)
    /\ Note([t |-> "compare", old |-> old, new |-> new, p |-> p, fault |-> fault, at |-> at])
    /\ UNCHANGED <<par, rh, rt>>
Outs(old, new, p, fault) ==
  IF fault = "none" THEN Outcomes(par, rh, rt, lo, old, new, p) ELSE FaultyOutcomes(par, rh, rt, lo, old, new, p)
Compare == \E p \in Params : \E old, new \in Refs(p) : \E fault \in {"none"} \cup FaultKinds :
             CompareOne(old, new, p, fault, 0, Outs(old, new, p, fault))

Next == (RemoteGrows \/ RemoteRefs \/ LocalGrows \/ LocalRefs \/ LocalUse \/ Compare) /\ UNCHANGED done
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Simulation: one random history of MaxLen steps, written out at its end.     *)
One(S) == {RandomElement(S)}
\* Most refs are names that denote something.
SimRefs(names, p) ==
  LET all == Refs(p)
      live == {r \in all : Denotes(par, rh, rt, lo, r, p) # {}} IN
  IF names /\ \E r \in live : r.k = "name" THEN {r \in live : r.k = "name"} ELSE IF RandomElement(1..3) = 1 THEN all ELSE live \cup {Ref("unknown", "", 0)}
SimCompare(names) ==
  \E p \in One(Params) :
  \E old \in One(SimRefs(names, p)), new \in One(SimRefs(names, p)) :
  \E fault \in One({<<"none", 1>>} \cup (IF FaultKinds = {} THEN {} ELSE {<<"none", 2>>, <<"none", 3>>}) \cup {<<f, 1>> : f \in FaultKinds}) :
  \E at \in One(1..9) :
    LET os == Outs(old, new, p, fault[1]) IN CompareOne(old, new, p, fault[1], at, One(os))
SimEnv(ops) == IF Enabled(ops) = {} THEN SimCompare(TRUE) ELSE \E e \in One(Enabled(ops)) : EnvOne(e)
\* Towards pulling a branch that has grown on both sides, or on one.
Both == DOMAIN lo.heads \cap DOMAIN rh
Behind(b) == lo.heads[b] # rh[b] /\ lo.heads[b] \in Anc(par, rh[b])
Diverged(b) == ~Behind(b) /\ rh[b] \notin Anc(par, lo.heads[b])
SimPull(bs) ==
  \E b \in One(bs), swap \in One(BOOLEAN) :
  \E p \in One({[pull |-> TRUE, force |-> f, offline |-> FALSE, ignore |-> TRUE] : f \in {FALSE}}) :
  \E other \in One(SimRefs(TRUE, p)) :
    LET old == IF swap THEN Ref("name", b, 0) ELSE other
        new == IF swap THEN other ELSE Ref("name", b, 0)
    IN \E out \in One(Outs(old, new, p, "none")) : CompareOne(old, new, p, "none", 1, {out})
SimDiverge ==
  LET bs == {b \in Both : Diverged(b)}
      ahead == {e \in Enabled({"rcommit", "rforce"}) : e.b \in Both /\ lo.heads[e.b] \notin Anc(par, rh[e.b])}
      grow == {e \in Enabled({"lcommit"}) : e.b \in Both} IN
  IF bs # {} THEN SimPull(bs)
  ELSE IF ahead # {} THEN \E e \in One(ahead) : EnvOne(e)
  ELSE IF grow # {} THEN \E e \in One(grow) : EnvOne(e)
  ELSE IF Both # {} THEN SimPull(Both)
  ELSE SimCompare(TRUE)
\* Towards pulling, with a fault, a branch of which the remote has more than was fetched.
Stale == {b \in DOMAIN rh : b \notin DOMAIN lo.track \/ lo.track[b] # rh[b]}
SimStale ==
  LET grow == Enabled({"rcommit", "rforce"}) IN
  IF Stale # {}
  THEN \E b \in One(Stale), swap \in One(BOOLEAN), f \in One(BOOLEAN), ig \in One(Ignores), at \in One(1..9) :
       \E fault \in One({<<"remote", i>> : i \in 1..Cardinality(FaultKinds)} \cup {<<k, 1>> : k \in FaultKinds}) :
         LET p == [pull |-> TRUE, force |-> f, offline |-> FALSE, ignore |-> ig] IN
         \E other \in One(SimRefs(TRUE, p)) :
           LET old == IF swap THEN Ref("name", b, 0) ELSE other
               new == IF swap THEN other ELSE Ref("name", b, 0)
           IN CompareOne(old, new, p, fault[1], at, One(FaultyOutcomes(par, rh, rt, lo, old, new, p)))
  ELSE IF grow # {} THEN \E e \in One(grow) : EnvOne(e)
  ELSE SimCompare(TRUE)
SimNext ==
  IF Len(hist) = MaxLen
  THEN ~done /\ done' = PrintT("@@" \o ToJson(hist)) /\ UNCHANGED <<par, rh, rt, lo, hist, okSteps>>
  ELSE /\ \E k \in One(1..(IF FaultKinds = {} THEN 17 ELSE 22)) :
            CASE k <= 2 -> SimEnv({"rcommit"})
              [] k >= 18 -> SimStale
              [] k = 3  -> SimEnv({"rbranch", "rforce", "rdelete", "rtag"})
              [] k = 4  -> SimEnv({"lcommit"})
              [] k = 5  -> SimEnv({"lbranch", "ltag"})
              [] k = 6  -> SimEnv({"lcheckout", "ldetach", "ufetch"})
              [] k <= 11 -> SimCompare(TRUE)
              [] k >= 14 -> SimDiverge
              [] OTHER  -> SimCompare(FALSE)
       /\ UNCHANGED done
SimSpec == Init /\ [][SimNext]_vars

StepsOk == okSteps
\* The tree is always that of HEAD, and all refs are known commits.
Consistent == /\ lo.tree = HeadCommit(lo)
              /\ \A b \in DOMAIN lo.heads : lo.heads[b] \in lo.known
              /\ \A b \in DOMAIN lo.track : lo.track[b] \in lo.known
              /\ \A t \in DOMAIN lo.tags : lo.tags[t] \in lo.known
Short == TLCGet("level") <= 5
Shorter == TLCGet("level") <= 3
View == <<par, rh, rt, [lo EXCEPT !.fetched = 0], okSteps>>

=============================================================================
