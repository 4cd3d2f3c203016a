---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Validates recorded executions of sessions against Session.  Each line   *)
(* is a statement with its result; "reset" starts a new execution on an    *)
(* initialized store.  A statement with fired = 1 is one during which the  *)
(* storage below the engine failed: then it may be refused, without        *)
(* effect; in an open transaction it is then followed by a ROLLBACK, and a *)
(* COMMIT which failed has ended the transaction without effect.           *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st,
    spoiled    \* a statement of the open transaction failed with the storage

\* The event with the table id the code chose.
Event(st0, e) ==
    IF e.op # "ctable" THEN e
    ELSE [x \in DOMAIN e \cup {"id"} |->
             IF x # "id" THEN e[x]
             ELSE IF e.res[1] = "ok" THEN e.res[2] ELSE SeenBy(st0, e).top + 1]

Fired(e) == "fired" \in DOMAIN e /\ e.fired = 1

Matches(st0, e, want) ==
    CASE Fired(e) /\ e.res = Rej -> TRUE
      [] want[1] = "names" ->
           /\ Len(e.res) = 2 /\ e.res[1] = "names"
           /\ Len(e.res[2]) = Cardinality(want[2])
           /\ {Canon(n) : n \in Range(e.res[2])} = want[2]
      [] want[1] = "name" ->
           Len(e.res) = 2 /\ e.res[1] = "name" /\ [i \in 1 .. Len(e.res[2]) |-> Canon(e.res[2][i])] = want[2]
      [] want[1] = "table" ->
           /\ Len(e.res) = 4 /\ e.res[1] = "ok" /\ e.res[2] = want[4]
           /\ [i \in 1 .. 3 |-> Canon(e.res[3][i])] = want[2]
           /\ want[3] # NoDef => CanonTableDef(e.res[4]) = want[3]
      [] e.op = "ctable" /\ want[1] = "ok" ->
           LET c == SeenBy(st0, e)
               n == ResolveTable(CurrentOf(st0, e), e.db, e.sc, e.tb)
           IN IF e.res[1] # "ok" THEN e.res = Rej /\ n \notin DOMAIN c.tables /\ ~IsSmall(DefOf(e.items))
              ELSE /\ Len(e.res) = 2
                   /\ IF n \in DOMAIN c.tables THEN e.res[2] = c.tables[n].id ELSE e.res[2] > c.top
      [] OTHER -> e.res = want

Init == l = 1 /\ st = InitSession /\ spoiled = FALSE

Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
       IN IF e.op = "reset" /\ e.res = OK
          THEN st' = InitSession /\ l' = l + 1 /\ spoiled' = FALSE
          ELSE LET ev == Event(st, e)
                   a == IF e.op = "reset" THEN R(st, OK) ELSE Exec(st, ev)
               IN /\ Assert(~Blocked(st, e), <<"blocked", l>>)
                  /\ IF ~Matches(st, e, a.res)
                     THEN PrintT(<<"MISMATCH", l, ToJson(a.res), ToJson(e)>>) /\ FALSE
                     ELSE LET failed == Fired(e) /\ e.res = Rej
                              st2 == IF e.res # Rej THEN a.st
                                     ELSE IF failed /\ e.op = "commit"
                                     THEN Exec(st, [ev EXCEPT !.op = "rollback"]).st ELSE st
                          IN /\ Assert((failed /\ e.op = "commit")
                                       \/ StatementOk(st, ev, IF e.res = Rej THEN Rej ELSE a.res, st2), "statement")
                             /\ Assert(~spoiled \/ (e.op = "rollback" /\ Mine(st, e)), "a ROLLBACK was expected")
                             /\ spoiled' = (failed /\ Mine(st2, e))
                             /\ st' = st2 /\ l' = l + 1

Spec == Init /\ [][Next]_<<l, st, spoiled>>

Ok == SessionOk(st)

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
