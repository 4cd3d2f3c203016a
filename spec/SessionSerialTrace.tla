------------------------- MODULE SessionSerialTrace -------------------------
(***************************************************************************)
(* Validates histories of sessions which executed statements concurrently: *)
(* there must be an order of their transactions (a statement outside one   *)
(* is a transaction of its own), consistent with the real time order of    *)
(* those that did not overlap, in which executing them one at a time       *)
(* (Session) gives every result that was observed.  Table ids are learnt   *)
(* when a table is opened: ids maps those of the specification to those    *)
(* seen, and must be increasing.                                           *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Histories == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, done, st, ids

Txs(n) == 1 .. Len(Histories[n].txs)

Event(s, e) ==
    IF e.op # "ctable" THEN e
    ELSE [x \in DOMAIN e \cup {"id"} |-> IF x # "id" THEN e[x] ELSE SeenBy(s, e).top + 1]

\* The ids learnt from a result, added to m: <<>> if they cannot be.
Learn(m, e, want) ==
    IF want[1] # "table" THEN <<m>>
    ELSE LET k == want[4]
             v == e.res[2]
         IN IF k \in DOMAIN m THEN (IF m[k] = v THEN <<m>> ELSE <<>>)
            ELSE IF \A j \in DOMAIN m : ((j < k) <=> (m[j] < v)) /\ m[j] # v
                 THEN << [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]] >> ELSE <<>>

Matches(e, want) ==
    CASE want[1] = "names" ->
           /\ Len(e.res) = 2 /\ e.res[1] = "names"
           /\ Len(e.res[2]) = Cardinality(want[2])
           /\ {Canon(n) : n \in Range(e.res[2])} = want[2]
      [] want[1] = "table" ->
           /\ Len(e.res) = 4 /\ e.res[1] = "ok"
           /\ [i \in 1 .. 3 |-> Canon(e.res[3][i])] = want[2]
           /\ want[3] # NoDef => CanonTableDef(e.res[4]) = want[3]
      [] OTHER -> e.res = want

\* Run the events of a transaction from event i: <<>> if some result is not as observed.
RECURSIVE Run(_, _, _, _)
Run(s, m, evs, i) ==
    IF i > Len(evs) THEN <<s, m>>
    ELSE LET e == Event(s, evs[i])
             a == Exec(s, e)
         IN IF Blocked(s, e) \/ ~Matches(e, a.res) THEN <<>>
            ELSE LET l == Learn(m, e, a.res)
                 IN IF l = <<>> THEN <<>> ELSE Run(a.st, l[1], evs, i + 1)

Init ==
    /\ TLCSet(1, {})
    /\ h \in 1 .. Len(Histories)
    /\ done = {}
    /\ st = InitSession
    /\ ids = <<>>

\* Transactions which no transaction still to be run precedes in real time.
First(n, d) ==
    {t \in Txs(n) \ d : \A u \in Txs(n) \ d : Histories[n].txs[u].ret >= Histories[n].txs[t].call}

Next ==
    \E t \in First(h, done) :
        LET r == Run(st, ids, Histories[h].txs[t].evs, 1)
        IN /\ r # <<>>
           /\ st' = r[1]
           \* the ids of what was rolled back are forgotten
           /\ ids' = [k \in {k \in DOMAIN r[2] : k <= r[1].com.top} |-> r[2][k]]
           /\ done' = done \cup {t}
           /\ h' = h

Spec == Init /\ [][Next]_<<h, done, st, ids>>

Ok == SessionOk(st) /\ st.owner = 0

\* Note the histories for which an order was found.
Note == done # Txs(h) \/ TLCSet(1, TLCGet(1) \cup {h})

Accepted ==
    \A n \in 1 .. Len(Histories) :
        n \in TLCGet(1) \/ (PrintT(<<"MISMATCH", n, "\"a serial order of the transactions\"", "">>) /\ FALSE)
=============================================================================
