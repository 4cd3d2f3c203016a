---------------------------- MODULE SerialTrace -----------------------------
(***************************************************************************)
(* Validates histories of transactions which were run concurrently: there  *)
(* must be an order of the transactions of a history, consistent with the  *)
(* real time order of those that did not overlap, in which running them    *)
(* one at a time (Store) gives every result that was observed.             *)
(*                                                                         *)
(* Each line of the trace is a history: the definitions, and transactions  *)
(* [call, ret, evs] where call and ret are taken from one counter before   *)
(* the transaction begins and after it has completed.                      *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils

Histories == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, done, st

Txs(n) == 1 .. Len(Histories[n].txs)

\* Run the events of a transaction from event i: <<>> if some result is not as observed.
RECURSIVE Run(_, _, _, _)
Run(s, defs, evs, i) ==
    IF i > Len(evs) THEN <<s>>
    ELSE LET e == evs[i]
             ev == IF "def" \in DOMAIN e
                   THEN [x \in DOMAIN e \cup {"d"} |-> IF x = "d" THEN defs[e.def] ELSE e[x]] ELSE e
             a == Apply(s, ev)
         IN IF a.res # e.res THEN <<>> ELSE Run(a.st, defs, evs, i + 1)

Init ==
    /\ TLCSet(1, {})
    /\ h \in 1 .. Len(Histories)
    /\ done = {}
    /\ st = InitStore

\* Transactions which no transaction still to be run precedes in real time.
First(n, d) ==
    {t \in Txs(n) \ d : \A u \in Txs(n) \ d : Histories[n].txs[u].ret >= Histories[n].txs[t].call}

Next ==
    \E t \in First(h, done) :
        LET r == Run(st, Histories[h].defs, Histories[h].txs[t].evs, 1)
        IN /\ r # <<>>
           /\ st' = r[1]
           /\ done' = done \cup {t}
           /\ h' = h

Spec == Init /\ [][Next]_<<h, done, st>>

Ok == StateOk(st)

\* Note the histories for which an order was found.
Note == done # Txs(h) \/ TLCSet(1, TLCGet(1) \cup {h})

Accepted ==
    \A n \in 1 .. Len(Histories) :
        n \in TLCGet(1) \/ (PrintT(<<"MISMATCH", n, "\"a serial order of the transactions\"", "">>) /\ FALSE)
=============================================================================
