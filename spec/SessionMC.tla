----------------------------- MODULE SessionMC ------------------------------
(***************************************************************************)
(* Bounded models of Session, one for each property (Profile).  For each   *)
(* transition TLC writes a path of statements from the initial state, with *)
(* the result of each, which the harness executes as SQL text in the real  *)
(* sessions, and the state at the end of it.                               *)
(***************************************************************************)
EXTENDS Session, Json, CSV, IOUtils

CONSTANT Profile, Bound
CONSTANT Walk    \* 0, or the length of the random paths to write instead (TLC -simulate)

VARIABLES st, hist

N(s) == <<0>> \o s
MahoT == <<109, 97, 104, 111>>
PublicT == <<112, 117, 98, 108, 105, 99>>
MahoN == N(MahoT)
PublicN == N(PublicT)
Na == N(<<97>>)
Nb == N(<<98>>)
NA == N(<<65>>)       \* A, which is a
QA == <<1, 65>>       \* "A", which is another name than a
None == Absent

IntT == [name |-> "int", size |-> -1]
Str(n) == [name |-> "varchar", size |-> n]
Col(n, t, cs) == <<"col", n, t, cs>>

\* Declarations of tables
Items ==
    << << Col(Na, IntT, <<>>) >>,
       << Col(Na, IntT, <<"nn">>), Col(QA, Str(3), <<"pk">>), Col(Nb, [name |-> "bytea", size |-> -1], <<"df", "nn">>) >>,
       << Col(Na, IntT, <<"pk", "nn">>), <<"uq", << <<Nb, 1>>, <<Na, 0>> >> >>, Col(Nb, [name |-> "double", size |-> -1], <<>>) >>,
       << <<"pk", << <<Nb, 1>>, <<NA, 0>> >> >>, Col(Na, [name |-> "bool", size |-> -1], <<"nn">>), Col(Nb, IntT, <<>>) >>,
       << Col(Na, IntT, <<>>), Col(QA, IntT, <<>>), <<"ck">>, <<"uq", << <<QA, 0>> >> >>, <<"pk", << <<QA, 1>> >> >> >>,
       << Col(Na, IntT, <<>>), <<"pk", << <<Na, 0>>, <<QA, 0>> >> >> >>,                     \* unknown column
       << Col(Na, IntT, <<"pk">>), Col(Nb, IntT, <<>>), <<"pk", << <<Nb, 0>> >> >> >>,        \* two primary keys
       << Col(Na, IntT, <<"uq">>), <<"pk", << <<Na, 0>> >> >> >> >>                          \* equal keys

Table(s, db, sc, tb, d, i, op) ==
    [op |-> op, ses |-> s, db |-> db, sc |-> sc, tb |-> tb, ifx |-> i, def |-> d, items |-> Items[d], id |-> 0]
Ctable(s, db, sc, tb, d, i) == Table(s, db, sc, tb, d, i, "ctable")
Cschema(s, db, sc) == [op |-> "cschema", ses |-> s, db |-> db, sc |-> sc, ifx |-> 0]
Dschema(s, db, sc, i) == [op |-> "dschema", ses |-> s, db |-> db, sc |-> sc, ifx |-> i]
Unsupported(s, k, tb) == [op |-> "unsupported", ses |-> s, kind |-> k, db |-> None, sc |-> None, tb |-> tb]
Simple(s, op) == [op |-> op, ses |-> s]
Createdb(s, db, o) == [op |-> "createdb", ses |-> s, db |-> db, opts |-> o]
Dropdb(s, db, i) == [op |-> "dropdb", ses |-> s, db |-> db, ifx |-> i]
Setdb(s, v) == [op |-> "setdb", ses |-> s, val |-> v]
Setsc(s, v) == [op |-> "setsc", ses |-> s, val |-> v]

Kinds == {"select", "select-from", "insert", "update", "delete", "values", "copy", "show", "show-var", "explain", "alter"}
Ss == 1 .. 2

C24 ==
    UNION {{Simple(s, o) : o \in {"begin", "commit", "rollback"}} : s \in Ss}
    \cup UNION {{Createdb(s, Na, 0), Createdb(s, Na, 1), Dropdb(s, Na, 0), Dropdb(s, Na, 1),
                 Cschema(s, None, Na), Dschema(s, None, Na, 0), Unsupported(s, "select", Na), Simple(s, "setvar"),
                 Ctable(s, None, None, Na, 1, 0)} : s \in Ss}
    \cup (IF Bound < 2 THEN {}
          ELSE UNION {{Cschema(s, Na, Na), Dschema(s, None, PublicN, 1), Dropdb(s, MahoN, 0), Setsc(s, <<97>>),
                       Ctable(s, None, None, Na, 6, 0), Ctable(s, None, None, Na, 1, 1)} : s \in Ss})

Dbs == {MahoN, Na}
Scs == {PublicN, Na}
Qualified ==
    IF Bound < 2 THEN {<<None, None>>, <<None, Na>>, <<Na, PublicN>>}
    ELSE {<<None, None>>} \cup {<<None, s>> : s \in Scs} \cup {<<d, s>> : d \in Dbs, s \in Scs}
C25 ==
    UNION {{Setdb(s, v) : v \in {MahoT, <<97>>}} \cup {Setsc(s, v) : v \in {PublicT, <<97>>}} : s \in Ss}
    \cup {Simple(1, o) : o \in IF Bound < 2 THEN {} ELSE {"begin", "commit", "rollback"}}
    \cup UNION {{[op |-> "rtable", ses |-> s, kind |-> "all", db |-> q[1], sc |-> q[2], tb |-> QA] : q \in Qualified}
                \cup {[op |-> "rschema", ses |-> s, kind |-> "all", db |-> q[1], sc |-> q[2]] : q \in {q \in Qualified : q[2] # None}} : s \in Ss}
    \cup {Createdb(1, Na, 0), Dropdb(1, Na, 0), Simple(2, "setvar")}
    \cup {Cschema(s, q[1], q[2]) : s \in IF Bound < 2 THEN {1} ELSE Ss, q \in {<<None, Na>>, <<Na, Na>>}}
    \cup {Ctable(1, q[1], q[2], Na, 1, 0) : q \in IF Bound < 2 THEN {<<None, None>>} ELSE {<<None, None>>, <<None, Na>>, <<Na, Na>>}}
    \cup (IF Bound < 2 THEN {} ELSE {Dschema(s, None, Na, 0) : s \in Ss})

\* Statements during which every call of the storage fails in turn, and then none does.
Swept(e) == [x \in DOMAIN e \cup {"sweep"} |-> IF x = "sweep" THEN 1 ELSE e[x]]
C26 ==
    UNION {{Swept(Createdb(s, Na, 0)), Swept(Createdb(s, Na, 1)), Swept(Dropdb(s, Na, 0)), Swept(Cschema(s, None, Na)),
            Swept(Cschema(s, Nb, Na)), Swept(Dschema(s, None, Na, 0)), Swept(Ctable(s, None, None, Na, 2, 0)),
            Swept(Ctable(s, None, Na, Na, 6, 0)), Swept(Ctable(s, None, None, Na, 1, 1)), Swept(Ctable(s, Nb, Na, Na, 1, 0))} :
           s \in IF Bound < 2 THEN {1} ELSE Ss}
    \cup {Unsupported(1, k, Na) : k \in Kinds}
    \cup {Simple(2, o) : o \in {"begin", "commit", "rollback"}}
    \cup {Cschema(2, None, Na), Unsupported(2, "insert", Na)}

C27 ==
    {Ctable(s, None, sc, t, d, i) : s \in {1}, sc \in {None, Na}, t \in {Na, QA}, d \in 1 .. Len(Items), i \in 0 .. 1}
    \cup {[op |-> "cindex", ses |-> 1, db |-> None, sc |-> None, tb |-> t, key |-> k] :
             t \in {Na, QA}, k \in {<< <<Na, 0>> >>, << <<NA, 1>>, <<Nb, 0>> >>, << <<QA, 0>> >>, << <<N(<<99>>), 0>>, <<Na, 0>> >>}}
    \cup {Simple(1, o) : o \in IF Bound < 2 THEN {} ELSE {"begin", "commit", "rollback"}}
    \cup {Cschema(1, None, Na)}

Events(s) ==
    {e \in (CASE Profile = "C24" -> C24 [] Profile = "C25" -> C25 [] Profile = "C26" -> C26 [] Profile = "C27" -> C27) :
        /\ ~Blocked(s, e)
        /\ "sweep" \in DOMAIN e => s.owner # e.ses}

WithId(s, e) ==
    IF e.op = "ctable" THEN [x \in DOMAIN e |-> IF x = "id" THEN SeenBy(s, e).top + 1 ELSE e[x]] ELSE e

Constraint == Walk > 0 \/ (Cardinality(DOMAIN st.cur.tables) <= (IF Profile = "C24" THEN 5 ELSE 6))

Bare(e) == [x \in DOMAIN e \ {"items", "id"} |-> e[x]]

SetToSeq(S) == LET RECURSIVE F(_)
                   F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x})
               IN F(S)
Cat(c) == [dbs |-> SetToSeq(c.dbs), schemas |-> SetToSeq(c.schemas),
           tables |-> SetToSeq({<<n, c.tables[n].id, c.tables[n].def>> : n \in DOMAIN c.tables})]

Init == st = InitSession /\ hist = <<>>

Step ==
    \E e \in IF Walk > 0 THEN {RandomElement(Events(st))} ELSE Events(st) :
        LET ev == WithId(st, e)
            a == Exec(st, ev)
        IN /\ Assert(StatementOk(st, ev, a.res, a.st), <<"statement", e>>)
           /\ st' = a.st
           /\ hist' = Append(hist, [e |-> Bare(e), res |-> a.res])

Line(h, s) == ToJson([path |-> h, owner |-> s.owner, cur |-> Cat(s.cur), com |-> Cat(s.com),
                ses |-> [n \in Ss |-> <<s.ses[n].db, s.ses[n].sc>>]])

\* The end of a random path.
End == CSVWrite("%1$s", <<Line(hist, st)>>, IOEnv.OUT) /\ UNCHANGED <<st, hist>>

Next == IF Walk > 0 /\ Len(hist) >= Walk THEN End ELSE Step

Spec == Init /\ [][Next]_<<st, hist>>
View == st
Ok == SessionOk(st)

\* Write the path of every transition.
Emit == Walk > 0 \/ CSVWrite("%1$s", <<Line(hist', st')>>, IOEnv.OUT)

ASSUME CSVWrite("%1$s", <<ToJson([items |-> Items])>>, IOEnv.OUT)
=============================================================================
