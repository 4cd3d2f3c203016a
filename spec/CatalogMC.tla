----------------------------- MODULE CatalogMC ------------------------------
(***************************************************************************)
(* Bounded models of Catalog, one for each property (Profile).  For each   *)
(* transition TLC writes a path of events from the initial state, with the *)
(* result of each, which the harness replays in the real code, and the     *)
(* catalogs at the end of it.  Table ids in the model stand for their      *)
(* order.                                                                  *)
(***************************************************************************)
EXTENDS Catalog, Json, CSV, IOUtils

CONSTANT Profile, Bound
CONSTANT Walk    \* 0, or the length of the random paths to write instead (TLC -simulate)

VARIABLES st, hist

N(s) == <<0>> \o s
MahoN == N(<<109, 97, 104, 111>>)
SystemN == N(<<115, 121, 115, 116, 101, 109>>)
PublicN == N(<<112, 117, 98, 108, 105, 99>>)
InfoN == N(<<105, 110, 102, 111>>)
TablesN == N(<<116, 97, 98, 108, 101, 115>>)
Na == N(<<97>>)
Nb == N(<<98>>)
QA == <<1, 65>>     \* "A", which is another name than a

Defs ==
    << [cols |-> <<Na, QA>>, types |-> <<<<2, 8, 0, 1>>, <<4, 10, 1, 0>>>>, key |-> <<<<0, 0>>>>],
       [cols |-> <<Nb>>, types |-> <<<<5, 3, 0, 0>>>>, key |-> <<<<0, 1>>>>] >>

DbNames == {MahoN, Na}
AllDbs == DbNames \cup {Nb, SystemN}
TxDbs == IF Profile = "C20" THEN DbNames ELSE {MahoN}
ScNames == IF Profile # "C21" /\ Bound < 2 THEN {PublicN, Na} ELSE {PublicN, Na, QA}
TbNames == IF Profile # "C21" THEN {Na} ELSE IF Bound > 1 THEN {Na, Nb, QA} ELSE {Na, QA}

TxEvents(s) == IF s.act THEN {[op |-> "commit"], [op |-> "rollback"]} ELSE {[op |-> "begin"]}

DbEvents(s) ==
    IF s.act THEN {}
    ELSE {[op |-> "createdb", db |-> d, opts |-> o] : d \in DbNames, o \in 0 .. 1}
         \cup {[op |-> "dropdb", db |-> d, ifx |-> i] : d \in DbNames, i \in 0 .. 1}
         \cup {[op |-> "dbs"]} \cup {[op |-> "reopen"]} \cup {[op |-> "other"]}

SchemaEvents(s) ==
    IF ~s.act THEN {}
    ELSE {[op |-> "cschema", db |-> d, sc |-> n] : d \in TxDbs, n \in ScNames}
         \cup {[op |-> "dschema", db |-> d, sc |-> n, ifx |-> i] : d \in TxDbs, n \in ScNames, i \in 0 .. 1}
         \cup {[op |-> "schemas", db |-> d] : d \in TxDbs}

TableEvents(s) ==
    IF ~s.act THEN {}
    ELSE {[op |-> "ctable", db |-> MahoN, sc |-> n, tb |-> t, def |-> i, d |-> Defs[i], id |-> s.cur.top + 1]
             : n \in ScNames, t \in TbNames, i \in (IF Profile = "C21" THEN {1} ELSE {1, 2})}
         \cup {[op |-> "ctable", db |-> SystemN, sc |-> InfoN, tb |-> TablesN, def |-> 1, d |-> Defs[1], id |-> s.cur.top + 1]}
         \cup {[op |-> "open", db |-> d, sc |-> n, tb |-> t] : d \in {MahoN, Nb}, n \in ScNames, t \in TbNames}
         \cup {[op |-> "open", db |-> SystemN, sc |-> InfoN, tb |-> TablesN]}

\* The last transaction is used although it is completed.
DeadEvents(s) ==
    IF s.act THEN {}
    ELSE {[op |-> "commit"], [op |-> "rollback"], [op |-> "cschema", db |-> MahoN, sc |-> Na],
          [op |-> "dschema", db |-> MahoN, sc |-> PublicN, ifx |-> 1], [op |-> "schemas", db |-> MahoN],
          [op |-> "ctable", db |-> MahoN, sc |-> PublicN, tb |-> Na, def |-> 1, d |-> Defs[1], id |-> s.cur.top + 1],
          [op |-> "open", db |-> SystemN, sc |-> InfoN, tb |-> TablesN]}

Events(s) ==
    CASE Profile = "C20" -> TxEvents(s) \cup DbEvents(s) \cup SchemaEvents(s)
      [] Profile = "C21" -> TxEvents(s) \cup TableEvents(s) \cup
                            (IF s.act THEN {[op |-> "cschema", db |-> MahoN, sc |-> Na]} ELSE {})
      [] Profile = "C22" -> TxEvents(s) \cup SchemaEvents(s) \cup TableEvents(s) \cup
                            (IF s.act THEN {} ELSE {[op |-> "dropdb", db |-> MahoN, ifx |-> 0]}) \cup DeadEvents(s)

Small(s) == Profile # "C21" \/ Cardinality(DOMAIN s.cur.tables) <= 6 + Bound
Constraint == Walk > 0 \/ (Small(st))

Bare(e) == [x \in DOMAIN e \ {"d", "id"} |-> e[x]]

SetToSeq(S) == LET RECURSIVE F(_)
                   F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x})
               IN F(S)
Cat(c) == [dbs |-> SetToSeq(c.dbs), schemas |-> SetToSeq(c.schemas),
           tables |-> SetToSeq({<<n, c.tables[n].id, c.tables[n].def.cols>> : n \in DOMAIN c.tables})]

Out(res) == IF res[1] = "names" THEN <<"names", SetToSeq(res[2])>>
            ELSE IF res[1] = "table" THEN <<"table", res[4], res[3]>> ELSE res

Init == st = InitEngine /\ hist = <<>>

Step ==
    \E e \in IF Walk > 0 THEN {RandomElement(Events(st))} ELSE Events(st) :
        LET a == Apply(st, e)
        IN /\ Assert(StepOk(st, e, a.res, a.st), <<"step", e>>)
           /\ st' = a.st
           /\ hist' = Append(hist, [e |-> Bare(e), res |-> Out(a.res)])

Line(h, s) == ToJson([path |-> h, act |-> s.act, cur |-> Cat(s.cur), com |-> Cat(s.com)])

\* The end of a random path.
End == CSVWrite("%1$s", <<Line(hist, st)>>, IOEnv.OUT) /\ UNCHANGED <<st, hist>>

Next == IF Walk > 0 /\ Len(hist) >= Walk THEN End ELSE Step

Spec == Init /\ [][Next]_<<st, hist>>
View == st
Ok == EngineOk(st)

\* Write the path of every transition.
Emit == Walk > 0 \/ CSVWrite("%1$s", <<Line(hist', st')>>, IOEnv.OUT)

ASSUME CSVWrite("%1$s", <<ToJson([defs |-> Defs])>>, IOEnv.OUT)
=============================================================================
