----------------------------- MODULE TypedTrace -----------------------------
(***************************************************************************)
(* Validates recorded executions on typed tables against Typed.  A "reset" *)
(* event makes a typed table of a structure type on a new store; its       *)
(* result is the definition the code derived.  An event with fired = 1 is  *)
(* one during which the storage failed or the context ended: it may be     *)
(* refused; an update or a deletion is then followed by a rollback.        *)
(***************************************************************************)
EXTENDS Typed, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st

\* The size of other columns is not specified.
Plain(ct) == IF ct[1] \in {TBool, TFloat} THEN <<ct[1], 0, ct[3], ct[4]>> ELSE ct
SameDef(d, want) ==
    /\ [i \in 1 .. Len(d.cols) |-> Canon(d.cols[i])] = [i \in 1 .. Len(want.cols) |-> Canon(want.cols[i])]
    /\ [i \in 1 .. Len(d.types) |-> Plain(d.types[i])] = want.types
    /\ d.key = want.key

Init == l = 1 /\ st = InitTyped([cols |-> <<>>, types |-> <<>>, key |-> <<>>])

Next ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
       IN IF e.op = "reset"
          THEN LET d == TypedDef(e.fields)
               IN IF ~(Len(e.res) = 2 /\ e.res[1] = "ok" /\ SameDef(e.res[2], d))
                  THEN PrintT(<<"MISMATCH", l, ToJson(d), ToJson(e)>>) /\ FALSE
                  ELSE st' = InitTyped(d) /\ l' = l + 1
          ELSE LET failed == "fired" \in DOMAIN e /\ e.res = <<"rej">>
                   a == IF failed THEN R([st EXCEPT !.dirty = (e.op \in {"upd", "del"})], Rej)
                        ELSE TypedApply(st, e)
               IN IF e.res # a.res
                  THEN PrintT(<<"MISMATCH", l, ToJson(a.res), ToJson(e)>>) /\ FALSE
                  ELSE /\ Assert(~st.dirty \/ e.op = "rollback", "a rollback was expected")
                       /\ Assert(TypedStepOk(st, e, a.res, a.st), "step")
                       /\ st' = a.st /\ l' = l + 1

Spec == Init /\ [][Next]_<<l, st>>

Ok == TypedOk(st)

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
