------------------------------ MODULE GitTrace ------------------------------
(* Validates recorded histories of comparisons in real repositories against    *)
(* GitRepo.  A history starts with an event "start"; every event has the state *)
(* s of the local repository after it, which is the state before the next one. *)
EXTENDS GitRepo, Json, IOUtils

CONSTANT Checks
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Starts == {i \in 1..N : Trace[i].t = "start"}

VARIABLES l,      \* the event that is next
          at,     \* the event that was last
          par, rh, rt, lo, \* as in GitRepo
          shaken,          \* the previous comparison met a fault
          bad
vars == <<l, at, par, rh, rt, lo, shaken, bad>>

Range(s) == {s[i] : i \in 1..Len(s)}
\* A list of pairs as function.
Fun(s) == [x \in {q[1] : q \in Range(s)} |-> (CHOOSE q \in Range(s) : q[1] = x)[2]]
State(s) == [heads |-> Fun(s.heads), tags |-> Fun(s.tags), track |-> Fun(s.track), head |-> s.head,
             known |-> Range(s.known), fetched |-> 0, tree |-> s.tree]
V(p, ok) == IF ok \/ p \notin Checks THEN {} ELSE {p}

Begin(i) == /\ l = i + 1 /\ at = i
            /\ par = <<0, 1>> /\ rh = ("main" :> 2) /\ rt = Empty
            /\ lo = State(Trace[i].s) /\ shaken = FALSE /\ bad = {}
Init == \E i \in Starts : Begin(i)

Here == l <= N /\ l \notin Starts
ev == Trace[l]

\* The environment does exactly what the specification says; everything else is an error of the harness.
Env ==
  /\ Here /\ ev.t = "env"
  /\ LET S == EnvStep(par, rh, rt, lo, ev.e) IN
     /\ State(ev.s) = [S.lo EXCEPT !.fetched = 0]
     /\ par' = S.par /\ rh' = S.rh /\ rt' = S.rt /\ lo' = State(ev.s)
  /\ l' = l + 1 /\ at' = l /\ bad' = {} /\ UNCHANGED shaken

C18Ok(e, s2) ==
  LET d1 == Denotes(par, rh, rt, lo, e.old, e.p)
      d2 == Denotes(par, rh, rt, lo, e.new, e.p)
      outs == Outcomes(par, rh, rt, lo, e.old, e.new, e.p)
  IN /\ IF e.res = <<0, 0>> THEN \E o \in outs : o.res = <<0, 0>>
        ELSE e.res[1] \in d1 /\ e.res[2] \in d2 /\ Readable(e.res[1], e.p) /\ Readable(e.res[2], e.p)
     /\ HeadsOk(par, rh, lo, s2, {e.old, e.new}, e.p)
     \* the working tree is that of the commit compared last
     /\ s2.tree = HeadCommit(s2)
     /\ e.res # <<0, 0>> => s2.tree = e.res[2]
     /\ lo.known \subseteq s2.known

\* With a fault the correct comparison or an error.
FaultOk(e, s2) ==
  /\ e.res # <<0, 0>> => /\ e.res[1] \in Denotes(par, rh, rt, lo, e.old, e.p)
                         /\ e.res[2] \in Denotes(par, rh, rt, lo, e.new, e.p)
  /\ HeadsOk(par, rh, lo, s2, {e.old, e.new}, e.p)

Compare ==
  /\ Here /\ ev.t = "compare"
  /\ LET s2 == State(ev.s)
         p == ev.p
         odd == {ev.old.k, ev.new.k} \cap {"bad", "unknown"} # {}
     IN /\ bad' = V("C18", (ev.fault = "none" /\ ~shaken) => C18Ok(ev, s2))
                  \cup V("C20", /\ (ev.fault # "none") => FaultOk(ev, s2)
                                /\ (ev.fault = "none" /\ (shaken \/ odd)) => C18Ok(ev, s2)
                                /\ odd => ev.res = <<0, 0>>
                                /\ p.offline => (ev.contact = 0 /\ s2.track = lo.track))
                  \cup V("C04", ev.alive \/ ev.fault = "kill")
        /\ lo' = s2
        /\ shaken' = (ev.fault # "none")
  /\ l' = l + 1 /\ at' = l /\ UNCHANGED <<par, rh, rt>>

Over == (l > N \/ l \in Starts) /\ UNCHANGED vars
Next == Env \/ Compare \/ Over
Spec == Init /\ [][Next]_vars

Accepted == bad = {}
=============================================================================
