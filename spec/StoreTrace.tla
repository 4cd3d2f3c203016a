----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Validates recorded executions of the storage layer against Store.  Each *)
(* line of the trace is an event with the result of the real call in res.  *)
(* A "reset" event starts a new execution on an empty store; its defs are  *)
(* the definitions the events refer to by number.  An event with fired = 1 *)
(* is one during which its context ended: it may be refused, without       *)
(* effect.                                                                 *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st, defs

HasDef(e) == "def" \in DOMAIN e
\* The event with its definition.
Event(e) == IF HasDef(e) THEN [x \in DOMAIN e \cup {"d"} |-> IF x = "d" THEN defs[e.def] ELSE e[x]] ELSE e

\* The result of a successful open says which definition the table reports.
Matches(s, e, want) ==
    IF e.op = "open" /\ want = OK
    THEN Len(e.res) = 2 /\ e.res[1] = "ok" /\ e.res[2] > 0
         /\ CanonDef(defs[e.res[2]]) = CanonDef(s.cur[e.tid].def)
    ELSE e.res = want

\* What must hold of the tables, checked when they change: strictly sorted rows have unique keys.
Changed(old, new) == {t \in DOMAIN new : t \notin DOMAIN old \/ new[t] # old[t]}
TablesOk(s, s2) ==
    LET ts == [cur |-> [t \in Changed(s.cur, s2.cur) |-> s2.cur[t]], com |-> EmptyFn]
    IN s2.cur = s.cur \/ (Sorted(ts) /\ Conforming(ts))

Init == l = 1 /\ st = InitStore /\ defs = <<>>

Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
       IN IF e.op = "reset"
          THEN st' = InitStore /\ defs' = e.defs /\ l' = l + 1
          ELSE LET ev == Event(e)
                   a == IF "fired" \in DOMAIN e /\ e.res = <<"rej">> THEN R(st, Rej) ELSE Apply(st, ev)
               IN IF ~Matches(st, e, a.res)
                  THEN PrintT(<<"MISMATCH", l, ToJson(a.res), ToJson(e)>>) /\ FALSE
                  ELSE /\ Assert(StepOk(st, ev, a.res, a.st), "step")
                       /\ Assert(e.op = "begin" \/ TablesOk(st, a.st), "tables")
                       /\ st' = a.st /\ l' = l + 1 /\ UNCHANGED defs

Spec == Init /\ [][Next]_<<l, st, defs>>

Ok == IdleIsClean(st)

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
