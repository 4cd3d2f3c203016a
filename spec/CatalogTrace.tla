---------------------------- MODULE CatalogTrace ----------------------------
(***************************************************************************)
(* Validates recorded executions of the engine against Catalog.  Each line *)
(* of the trace is an event with the result of the real call in res.  A    *)
(* "reset" event starts a new execution on an initialized store.  An event  *)
(* with fired = 1 is one during which the storage below the engine failed: *)
(* then it may be refused.  Outside a transaction it is then without       *)
(* effect; in one it is followed by a rollback, and a commit which failed  *)
(* has ended the transaction without effect.                               *)
(***************************************************************************)
EXTENDS Catalog, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st,
    spoiled    \* an operation of the transaction failed with the storage

Range(s) == {s[i] : i \in 1 .. Len(s)}

\* The event with the table id the code chose.
Event(st0, e) ==
    IF e.op # "ctable" THEN e
    ELSE [x \in DOMAIN e \cup {"id"} |->
             IF x = "id" THEN IF e.res[1] = "ok" THEN e.res[2] ELSE st0.cur.top + 1 ELSE e[x]]

Fired(e) == "fired" \in DOMAIN e /\ e.fired = 1

Matches(st0, e, want) ==
    CASE Fired(e) /\ e.res = Rej -> TRUE
      [] want[1] = "names" ->
           /\ Len(e.res) = 2 /\ e.res[1] = "names"
           /\ Len(e.res[2]) = Cardinality(want[2])
           /\ {Canon(n) : n \in Range(e.res[2])} = want[2]
      [] want[1] = "table" ->
           \* res: ok, id, name as <<database, schema, table>>, definition
           /\ Len(e.res) = 4 /\ e.res[1] = "ok" /\ e.res[2] = want[4]
           /\ [i \in 1 .. 3 |-> Canon(e.res[3][i])] = want[2]
           /\ want[3] # NoDef => CanonTableDef(e.res[4]) = want[3]
      [] e.op = "ctable" /\ want[1] = "ok" ->
           IF e.res[1] = "ok" THEN Len(e.res) = 2 /\ e.res[2] > st0.cur.top
           ELSE e.res = Rej /\ ~IsSmall(e.d)
      [] OTHER -> e.res = want

Init == l = 1 /\ st = InitEngine /\ spoiled = FALSE

Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
       IN IF e.op = "reset" /\ e.res = OK
          THEN st' = InitEngine /\ l' = l + 1 /\ spoiled' = FALSE
          ELSE LET ev == Event(st, e)
                   a == IF e.op = "reset" THEN R(st, OK) ELSE Apply(st, ev)
               IN IF ~Matches(st, e, a.res)
                  THEN PrintT(<<"MISMATCH", l, ToJson(a.res), ToJson(e)>>) /\ FALSE
                  ELSE LET st2 == IF e.res # Rej THEN a.st
                                  ELSE IF Fired(e) /\ e.op = "commit" THEN Apply(st, [op |-> "rollback"]).st
                                  ELSE st
                       IN /\ Assert((Fired(e) /\ e.res = Rej) \/ StepOk(st, ev, e.res, st2), "step")
                          /\ Assert(~spoiled \/ e.op = "rollback", "a rollback was expected")
                          /\ spoiled' = (Fired(e) /\ e.res = Rej /\ st2.act)
                          /\ st' = st2 /\ l' = l + 1

Spec == Init /\ [][Next]_<<l, st, spoiled>>

Ok == EngineOk(st)

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
